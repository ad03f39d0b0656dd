"""Symbolic execution of the real source of /repo (read from the files on each run)."""
import ast
import builtins
import functools
import inspect
import itertools
import re
import types

import z3

from . import sym
from .sym import (nonlinear, Unsupported, Infeasible, Raised, ExcVal, Sym, SInt, SBool, SStr, SKey, SRef, Poison, Part, one, is_one,
                  VList, VSet, VDict, HObj, VIter, T, SORTS, MK, ObjType, Ref, conj, forall, exists, z_subst, v_subst,
                  p_subst, rename, indexed)

ASTS = {}     # filename -> {(lineno, name): [nodes]}
MAX_DEPTH = 60


def load_ast(filename):
    if filename not in ASTS:
        tree = ast.parse(open(filename).read(), filename)
        index = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = node.decorator_list[0].lineno if node.decorator_list else node.lineno
                index.setdefault((line, node.name), []).append(node)
            elif isinstance(node, ast.Lambda):
                index.setdefault((node.lineno, '<lambda>'), []).append(node)
        ASTS[filename] = index
    return ASTS[filename]


class ReturnX(Exception):
    def __init__(self, value):
        self.value = value


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class IFunc:
    """a function of the interpreted program"""
    def __init__(self, node, globs, env, name, qualname, module, cls=None, defaults=(), kwdefaults=None, closure=None):
        self.node, self.globals, self.env, self.name = node, globs, env, name
        self.qualname, self.module, self.cls = qualname, module, cls
        self.defaults, self.kwdefaults = list(defaults), dict(kwdefaults or {})
        self.closure = closure or {}

    @property
    def key(self):
        return self.module + ':' + self.qualname


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class Builtin:
    """a method of a built in value"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Stub:
    """a callable given by a contract: f(interp, args, kwargs)"""
    def __init__(self, f, name='stub'):
        self.f, self.name = f, name


class SuperX:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Env:
    def __init__(self, func, parent=None):
        self.func, self.parent, self.vars = func, parent, {}
        self.yields = None
        self.nonlocals, self.globals_decl = set(), set()


def in_repo(f):
    from vlib import env
    import os
    try:
        fn = f.__code__.co_filename
    except AttributeError:
        return False
    return os.path.abspath(fn).startswith(os.path.abspath(env.REPO) + os.sep)


def short(op, text):
    """name of the uninterpreted value of an operation on the sequence of that canonical text"""
    import hashlib
    return '%s#%s' % (re.sub(r'[^A-Za-z0-9_-]+', '.', op), hashlib.md5(text.encode()).hexdigest()[:14])


def unwrap(f):
    while hasattr(f, '__wrapped__'):
        f = f.__wrapped__
    return f


def is_sym(v, depth=0):
    """does the value have any symbolic or interpreted part"""
    if isinstance(v, (Sym, VList, VSet, VDict, HObj, VIter, IFunc, Bound, Builtin, Stub, SuperX, Poison, ExcVal)):
        return True
    if isinstance(v, (list, tuple, set, frozenset)) and depth < 4:
        return any(is_sym(x, depth + 1) for x in v)
    if isinstance(v, dict) and depth < 4 and len(v) < 300:
        return any(is_sym(x, depth + 1) for x in v.values())
    return False


class Interp:
    def __init__(self, ctx, lifts=()):
        self.ctx = ctx
        self.depth = 0
        self.loop_hook = self.while_hook = None      # contracts of loops: (it, statement, env, ...) -> done
        self.opaques = {}             # name of an uninterpreted value -> (operation, sequence)
        self.lifts = list(lifts)      # [(real class, ObjType)]: how concrete objects become references
        self.axioms_done = set()
        self.inline_limit = MAX_DEPTH
        self.globals = {}             # (module, name) -> stub which stands for a constant of a module
        self.text_in_table = None     # contract: is an opaque text in a table of constants

    # ================================================================ references, facts

    def ref(self, z, typ):
        r = SRef(z, typ)
        self.facts_of(r)
        return r

    def facts_of(self, r):
        """type invariants of a reference, once per term"""
        k = (r.typ.name, r.z.get_id())
        if k in self.ctx.facts:
            return
        self.ctx.facts.add(k)
        self.ctx.keep.append(r.z)
        n = len(r.typ.classes)
        self.ctx.assume(z3.And(r.typ.tag(r.z) >= 0, r.typ.tag(r.z) < n) if n > 1 else r.typ.tag(r.z) == 0)
        for t in r.typ.attrs:
            if isinstance(r.typ.attrs[t], T.Seq):
                self.ctx.assume(r.typ.len(t, r.z) >= 0)
        if r.typ.inv is not None:
            for f in r.typ.inv(r.z):
                self.ctx.assume(f)

    def fresh(self, name, t, **kw):
        """a fresh value of the type descriptor"""
        if isinstance(t, str):
            return MK[t](self.ctx.fresh(name, SORTS[t]))
        if isinstance(t, ObjType):
            return self.ref(self.ctx.fresh(name, Ref), t)
        if isinstance(t, T.Obj):
            return self.ref(self.ctx.fresh(name, Ref), t.typ)
        if isinstance(t, T.Opt):
            return None if self.ctx.choose(2) else self.fresh(name, t.elem)
        if isinstance(t, T.Enum):
            return t.values[self.ctx.choose(len(t.values))]
        if isinstance(t, T.Seq):
            return self.fresh_seq(name, t.elem, t.kind)
        raise Unsupported('fresh %r' % (t,))

    def elem_term(self, f, elem):
        """function index -> value from a z3 function"""
        if isinstance(elem, str):
            return lambda i: MK[elem](f(i))
        typ = elem.typ if isinstance(elem, T.Obj) else elem
        return lambda i: SRef(f(i), typ)

    def fresh_seq(self, name, elem, kind='list', n=None):
        ctx = self.ctx
        if n is None:
            n = ctx.fresh(name + '.len', z3.IntSort())
            ctx.assume(n >= 0)
        s = SORTS[elem] if isinstance(elem, str) else Ref
        f0 = z3.Function(ctx.name(name + '.at'), *([b.sort() for b in ctx.bound] + [z3.IntSort(), s]))
        bound = list(ctx.bound)
        f = lambda i: f0(*(bound + [i]))
        r = VList([indexed(ctx, n, self.elem_term(f, elem))], kind=kind, epoch=ctx.epoch)
        r.at = f
        return r

    def lift(self, obj, typ):
        """a concrete real object as a reference, with facts about all its declared attributes"""
        name = 'obj:%s:%s' % (type(obj).__name__, self.lift_name(obj))
        z = z3.Const(name, Ref)
        r = SRef(z, typ)
        k = ('lift', name)
        if k not in self.ctx.facts:
            self.ctx.facts.add(k)
            tags = [i for i, c in enumerate(typ.classes) if type(obj) is c]
            if not tags:
                raise Unsupported('lift of a %s' % type(obj).__name__)
            self.ctx.assume(typ.tag(z) == tags[0])
            for a, t in typ.attrs.items():
                try:
                    v = getattr(obj, a)
                except Exception:
                    continue
                self.lift_attr(z, typ, a, t, v)
            self.facts_of(r)
        return r

    def lift_name(self, obj):
        return str(obj)

    def lift_attr(self, z, typ, a, t, v):
        ctx = self.ctx
        if isinstance(t, T.Opt):
            ctx.assume(typ.none(a, z) == z3.BoolVal(v is None))
            if v is None:
                return
            t = t.elem
        if t == T.Int:
            ctx.assume(typ.z(a, z) == z3.IntVal(int(v)))
        elif t == T.Bool:
            ctx.assume(typ.z(a, z) == z3.BoolVal(bool(v)))
        elif t == T.Str:
            ctx.assume(typ.z(a, z) == z3.StringVal(v))
        elif isinstance(t, (T.Obj, ObjType)):
            ctx.assume(typ.z(a, z) == self.lift(v, t.typ if isinstance(t, T.Obj) else t).z)
        elif isinstance(t, T.Seq) and not isinstance(t.elem, str):
            if a in ('singular_sequences',):
                return
            v = list(v)
            ctx.assume(typ.len(a, z) == len(v))
            for i, x in enumerate(v[:40]):
                ctx.assume(typ.at(a, z, z3.IntVal(i)) ==
                           self.lift(x, t.elem.typ if isinstance(t.elem, T.Obj) else t.elem).z)

    def as_sym(self, v, like=None):
        """a concrete value as a symbolic one (of the kind of `like`), or None"""
        if isinstance(v, Sym):
            return v
        if isinstance(v, bool):
            return SInt(z3.IntVal(int(v))) if isinstance(like, SInt) else SBool(z3.BoolVal(v))
        if isinstance(v, int):
            return SInt(z3.IntVal(v))
        if isinstance(v, str):
            return SStr(z3.StringVal(v))
        if isinstance(v, bytes) and self.bytes_as_text:
            return SStr(z3.StringVal(v.decode('latin1')))
        for c, t in self.lifts:
            if isinstance(v, c):
                return self.lift(v, t)
        return None

    # ================================================================ truth and comparisons

    def truth(self, v):
        z = self.truth_z(v)
        if isinstance(z, bool):
            return z
        return self.ctx.branch(z)

    def truth_z(self, v):
        """bool or z3 formula; may fork for objects with __bool__"""
        if isinstance(v, SBool):
            return v.z
        if isinstance(v, SInt):
            return v.z != 0
        if isinstance(v, SStr):
            return v.z != z3.StringVal('')
        if isinstance(v, (VList, VSet, VDict)):
            self.touch(v)
            return self.nonempty(v)
        if isinstance(v, (SRef, HObj)):
            for m in ('__bool__', '__len__'):
                if self.has_method(v, m):
                    return self.truth_z(self.call(self.getattr(v, m), [], {}))
            return True
        if isinstance(v, (IFunc, Bound, Builtin, Stub, VIter, ExcVal)):
            return True
        if isinstance(v, (SKey, Poison, SuperX)):
            raise Unsupported('truth of %r' % (v,))
        if is_sym(v):
            return len(v) > 0
        return bool(v)

    def nonempty(self, v):
        if any(is_one(p) for p in v.parts):
            return True
        if not v.parts:
            return False
        return z3.Or([p.n > 0 if p.n is not None else exists(p.vars, p.guard) for p in v.parts])

    def key_of(self, v):
        """the term which decides == and hash; tuples of terms for tuples"""
        if isinstance(v, SRef):
            return v.typ.z(v.typ.key, v.z) if v.typ.key else v.z
        if isinstance(v, Sym):
            return v.z
        if isinstance(v, tuple):
            return tuple(self.key_of(x) for x in v)
        if isinstance(v, VList) and v.concrete:
            return tuple(self.key_of(x) for x in v.items())
        s = self.as_sym(v)
        if s is None:
            raise Unsupported('hash of %r' % (v,))
        return self.key_of(s)

    def key_eq(self, a, b):
        """formula: == of two keys"""
        if a is None or b is None:
            return z3.BoolVal(a is None and b is None)
        if isinstance(a, HObj) or isinstance(b, HObj):
            if a is b:
                return z3.BoolVal(True)
            for x in (a, b):
                if isinstance(x, HObj) and x.cls.__hash__ is None:
                    raise Raised(ExcVal(TypeError, ('unhashable type',)))
            # its own __eq__ (equal objects are taken to have the same hash)
            r = self.eq(a, b)
            return r.z if isinstance(r, SBool) else z3.BoolVal(self.truth(r))
        if isinstance(a, SRef) and isinstance(b, SRef) and a.typ is not b.typ and None in (a.typ.key, b.typ.key):
            return z3.BoolVal(False)        # an object compared by identity
        ka, kb = self.key_of(a), self.key_of(b)
        return self._keq(ka, kb)

    def _keq(self, ka, kb):
        if isinstance(ka, tuple) or isinstance(kb, tuple):
            if not (isinstance(ka, tuple) and isinstance(kb, tuple)) or len(ka) != len(kb):
                return z3.BoolVal(False)
            return conj([self._keq(x, y) for x, y in zip(ka, kb)])
        if ka.sort() != kb.sort():
            if z3.RealSort() in (ka.sort(), kb.sort()):
                raise Unsupported('equality of an opaque value with a value of another type')
            return z3.BoolVal(False)
        return ka == kb

    def member(self, seq, x):
        """formula: x is (==) an element of the parts"""
        r = []
        for p in seq.parts:
            q = rename(self.ctx, p)
            r.append(exists(q.vars, z3.And(q.guard, self.key_eq(q.value, x))))
        return z3.Or(r) if r else z3.BoolVal(False)

    def subset(self, a, b):
        r = []
        for p in a.parts:
            q = rename(self.ctx, p)
            r.append(forall(q.vars, q.guard, self.member(b, q.value)))
        return conj(r)

    def eq(self, a, b):
        """== of python: bool or SBool (may fork when it runs code)"""
        if a is b and not isinstance(a, (SRef, HObj)):
            return True
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported(x.why)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SRef) and not is_sym(y) and not isinstance(y, (str, int, tuple)) and y is not None:
                y = y if self.as_sym(y) is None else self.as_sym(y)
            if isinstance(x, (SRef, HObj)) and self.has_method(x, '__eq__'):
                return self.call(self.getattr(x, '__eq__'), [y], {})
            if isinstance(x, HObj):
                if not isinstance(y, (SRef, HObj)) or x is not y:
                    return x is y
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a is None or b is None:
                return False
            sa, sb = self.as_sym(a, b), self.as_sym(b, a)
            if sa is None or sb is None:
                if isinstance(a, SKey) or isinstance(b, SKey):
                    raise Unsupported('comparison of an opaque value with a constant')
                return False
            if isinstance(sa, SBool) and isinstance(sb, SInt) or isinstance(sa, SInt) and isinstance(sb, SBool):
                raise Unsupported('bool == int')
            if sa.z.sort() != sb.z.sort():
                if isinstance(sa, SKey) or isinstance(sb, SKey):
                    raise Unsupported('comparison of an opaque value with a value of another type')
                return False
            return self.wrap_bool(sa.z == sb.z)
        la, lb = self.listy(a), self.listy(b)
        if la is not None and lb is not None:
            if la.kind != lb.kind and {la.kind, lb.kind} == {'list', 'tuple'}:
                return False
            self.touch(a), self.touch(b)
            if la.concrete and lb.concrete:
                x, y = la.items(), lb.items()
                if len(x) != len(y):
                    return False
                for p, q in zip(x, y):
                    if not self.truth(self.eq(p, q)):
                        return False
                return True
            for x, y in ((la, lb), (lb, la)):
                src = getattr(x, 'sorted_from', None)
                p = self.single(y)
                if src and x.sorted_by is None and p is not None and isinstance(p.value, SRef) and \
                        self.canon_parts(src) == self.canon_parts(y.parts):
                    # sorted(y) == y: y has no inversion (the order is total and compatible with ==)
                    i, j = z3.Int(self.ctx.name('i')), z3.Int(self.ctx.name('j'))
                    f = lambda k: v_subst(p.value, [(p.vars[0], k)]).z
                    return self.wrap_bool(z3.ForAll([i, j], z3.Implies(
                        z3.And(i >= 0, i < j, j < p.n), z3.Not(self.type_lt(p.value.typ)(f(j), f(i))))))
            for x, y in ((la, lb), (lb, la)):
                if x.concrete and not x.items():
                    return self.wrap_bool(self.as_sym(self.length(y)).z == 0)
            pa, pb = self.single(la), self.single(lb)
            if pa is None or pb is None:
                raise Unsupported('comparison of lists')
            q = rename(self.ctx, pa)
            r = v_subst(pb.value, [(pb.vars[0], q.vars[0])])
            return SBool(z3.And(pa.n == pb.n, forall(q.vars, q.guard, self.key_eq(q.value, r))))
        if isinstance(a, (VSet, set, frozenset)) and isinstance(b, (VSet, set, frozenset)) and \
                (isinstance(a, VSet) or isinstance(b, VSet)):
            x, y = self.to_set(a), self.to_set(b)
            return self.wrap_bool(z3.And(self.subset(x, y), self.subset(y, x)))
        if isinstance(a, VDict) or isinstance(b, VDict):
            if isinstance(a, (VDict, dict)) and isinstance(b, (VDict, dict)):
                for x, y in ((a, b), (b, a)):
                    if not (x.parts if isinstance(x, VDict) else x):
                        ne = self.nonempty(y) if isinstance(y, VDict) else bool(y)
                        return not ne if isinstance(ne, bool) else self.wrap_bool(z3.Not(ne))
            raise Unsupported('comparison of dictionaries')
        if isinstance(a, (VList, VSet)) or isinstance(b, (VList, VSet)):
            return False
        if is_sym(a) or is_sym(b):
            return a is b
        return a == b

    def wrap_bool(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return SBool(z)

    def lt(self, a, b):
        """a < b"""
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported(x.why)
        if isinstance(a, (SRef, HObj)) or isinstance(b, (SRef, HObj)):
            if isinstance(a, (SRef, HObj)) and self.has_method(a, '__lt__'):
                r = self.call(self.getattr(a, '__lt__'), [b], {})
                if r is not NotImplemented:
                    return r
            raise Raised(ExcVal(TypeError, ('<',)))
        if isinstance(a, Sym) or isinstance(b, Sym):
            sa, sb = self.as_sym(a, b), self.as_sym(b, a)
            if sa is None or sb is None:
                raise Unsupported('comparison %r < %r' % (a, b))
            if isinstance(sa, SStr) and isinstance(sb, SStr):
                return self.wrap_bool(sa.z < sb.z)
            if isinstance(sa, SBool) and isinstance(sb, SBool):
                return self.wrap_bool(z3.And(z3.Not(sa.z), sb.z))
            if sa.z.sort() != sb.z.sort() or isinstance(sa, SBool):
                raise Unsupported('comparison %r < %r' % (a, b))
            return self.wrap_bool(sa.z < sb.z)
        la, lb = self.listy(a), self.listy(b)
        if la is not None and lb is not None:
            if la.concrete and lb.concrete:
                x, y = la.items(), lb.items()
                for p, q in zip(x, y):
                    if not self.truth(self.eq(p, q)):
                        return self.lt(p, q)
                return len(x) < len(y)
            return self.seq_lt(la, lb)
        if is_sym(a) or is_sym(b):
            raise Unsupported('comparison %r < %r' % (a, b))
        try:
            return a < b
        except TypeError as e:
            raise Raised(ExcVal(TypeError, (str(e),), e))

    def seq_lt(self, la, lb):
        """lexicographic order of two symbolic sequences"""
        pa, pb = self.single(la), self.single(lb)
        if pa is None or pb is None:
            raise Unsupported('order of lists')
        c = self.ctx
        k = c.fresh('lex', z3.IntSort())
        at = lambda p, z: v_subst(p.value, [(p.vars[0], z)])
        j = z3.Int(c.name('j'))
        c.assume(z3.And(k >= 0, k <= pa.n, k <= pb.n))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), self.key_eq(at(pa, j), at(pb, j)))))
        if c.branch(z3.And(k < pa.n, k < pb.n)):
            x, y = at(pa, k), at(pb, k)
            self.touch_ref(x), self.touch_ref(y)
            c.assume(z3.Not(self.key_eq(x, y)))
            return self.lt(x, y)
        return self.wrap_bool(z3.And(k == pa.n, k < pb.n))

    def touch_ref(self, v):
        if isinstance(v, SRef):
            self.facts_of(v)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (SRef, HObj)) and self.has_method(x, '__ne__'):
                    return self.call(self.getattr(x, '__ne__'), [y], {})
            return self.not_(self.eq(a, b))
        if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            if isinstance(op, (ast.Gt, ast.LtE)):
                x, y = b, a
            else:
                x, y = a, b
            sets = (VSet, set, frozenset)
            if isinstance(x, sets) and isinstance(y, sets):
                if not isinstance(x, VSet) and not isinstance(y, VSet):
                    return {ast.Lt: lambda: a < b, ast.Gt: lambda: a > b, ast.LtE: lambda: a <= b,
                            ast.GtE: lambda: a >= b}[type(op)]()
                if isinstance(op, (ast.LtE, ast.GtE)):
                    p, q = (a, b) if isinstance(op, ast.LtE) else (b, a)
                    return self.wrap_bool(self.subset(self.to_set(p), self.to_set(q)))
                raise Unsupported('strict inclusion')
            if isinstance(op, (ast.LtE, ast.GtE)):
                if isinstance(x, (SRef, HObj)):
                    m = '__le__' if isinstance(op, ast.LtE) else '__ge__'
                    if self.has_method(a, m):
                        return self.call(self.getattr(a, m), [b], {})
                    raise Unsupported('<= of objects')
                return self.not_(self.lt(x, y))   # total orders only (numbers, texts, sequences of them)
            if isinstance(op, ast.Gt) and isinstance(a, (SRef, HObj)) and self.has_method(a, '__gt__'):
                return self.call(self.getattr(a, '__gt__'), [b], {})
            return self.lt(x, y)
        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            neg = isinstance(op, ast.IsNot)
            if isinstance(a, Poison) or isinstance(b, Poison):
                raise Unsupported('identity of a loop variable')
            if a is None or b is None or isinstance(a, (type, bool)) or isinstance(b, (type, bool)):
                if isinstance(a, SBool) or isinstance(b, SBool):
                    if a is None or b is None:
                        return neg
                    r = self.eq(a, b)
                    return self.not_(r) if neg else r
                return (a is b) != neg
            if isinstance(a, SRef) and isinstance(b, SRef):
                r = self.wrap_bool(a.z == b.z)
                return self.not_(r) if neg else r
            if isinstance(a, HObj) or isinstance(b, HObj):
                return (a is b) != neg
            if not is_sym(a) and not is_sym(b):
                return (a is b) != neg
            raise Unsupported('identity')
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return self.not_(r) if isinstance(op, ast.NotIn) else r
        raise Unsupported('comparison')

    def not_(self, v):
        z = self.truth_z(v)
        return (not z) if isinstance(z, bool) else self.wrap_bool(z3.Not(z))

    def contains(self, c, x):
        if isinstance(c, (SRef, HObj)):
            if self.has_method(c, '__contains__'):
                r = self.call(self.getattr(c, '__contains__'), [x], {})
                z = self.truth_z(r)
                return z if isinstance(z, bool) else SBool(z)
            raise Unsupported('in')
        if isinstance(c, VDict):
            self.touch(c)
            r = []
            for p in c.parts:
                q = rename(self.ctx, p)
                r.append(exists(q.vars, z3.And(q.guard, self.key_eq(q.value[0], x))))
            return self.wrap_bool(z3.Or(r) if r else z3.BoolVal(False))
        if isinstance(c, (VList, VSet)):
            self.touch(c)
            if c.concrete and not is_sym(x) and not any(is_sym(y) for y in c.items()):
                return x in c.items()
            if c.concrete and any(isinstance(y, HObj) for y in c.items() + [x]):
                for y in c.items():
                    if self.truth(self.eq(y, x)):
                        return True
                return False
            return self.wrap_bool(self.member(c, x))
        if isinstance(c, SStr) or isinstance(c, str) and isinstance(x, SStr):
            return self.wrap_bool(z3.Contains(self.as_sym(c).z, self.as_sym(x).z))
        if isinstance(x, SKey) and isinstance(c, dict) and self.text_in_table is not None:
            return self.text_in_table(self, c, x)
        if isinstance(c, (list, tuple, set, frozenset, dict)) or type(c).__name__ in ('dict_keys', 'mappingproxy', 'odict_keys'):
            if not is_sym(x) and not is_sym(c):
                return x in c
            if x is None:
                return any(y is None for y in c)
            r = [self.key_eq(y, x) for y in c if y is not None]
            return self.wrap_bool(z3.Or(r) if r else z3.BoolVal(False))
        if not is_sym(c) and not is_sym(x):
            return x in c
        raise Unsupported('in %r' % (type(c),))

    # ================================================================ sequences

    def touch(self, v):
        """reading an object with pending effects in a loop body is out of the subset"""
        if self.ctx.effects:
            for o, *_ in self.ctx.effects:
                if o is v:
                    raise Unsupported('a loop body reads what it accumulates')

    def listy(self, v):
        if isinstance(v, VList):
            return v
        if isinstance(v, (list, tuple)):
            return VList([one(x) for x in v], kind='tuple' if isinstance(v, tuple) else 'list', epoch=self.ctx.epoch)
        return None

    def single(self, l):
        """the only, indexed, part of the list; a concrete list is turned into one when its elements are objects"""
        if len(l.parts) == 1 and l.parts[0].n is not None and not l.unordered:
            return l.parts[0]
        return None

    def to_seq(self, v):
        """VList of the elements in order of iteration"""
        if isinstance(v, VList):
            self.touch(v)
            return v
        l = self.listy(v)
        if l is not None:
            return l
        if isinstance(v, VIter):
            s = self.to_seq(v.seq)
            if isinstance(v.pos, int) and v.pos == 0:
                v.pos = None
                return s
            if isinstance(v.pos, int) and s.concrete:
                k, v.pos = v.pos, None
                return VList(s.parts[k:], kind='list', epoch=self.ctx.epoch)
            raise Unsupported('partly consumed iterator')
        if isinstance(v, VSet):
            self.touch(v)
            if len(v.parts) <= 1 and v.concrete:
                return VList(v.parts, epoch=self.ctx.epoch)
            return self.enumerate_set(v)
        if isinstance(v, VDict):
            self.touch(v)
            keys = [Part(p.vars, p.guard, p.value[0], p.n) for p in v.parts]
            if self.repeated(v):
                self.ctx.taint('order of the keys of a dictionary')
                return self.enumerate_set(VSet(keys, epoch=self.ctx.epoch))
            return VList(keys, epoch=self.ctx.epoch)
        if isinstance(v, SRef) and v.typ.fields:
            return VList([one(self.ref_attr(v, n)) for n in v.typ.fields], kind='tuple', epoch=self.ctx.epoch)
        if isinstance(v, (SRef, HObj)):
            if self.has_method(v, '__iter__'):
                return self.to_seq(self.call(self.getattr(v, '__iter__'), [], {}))
            raise Unsupported('iteration on %r' % (v,))
        if isinstance(v, SStr):
            raise Unsupported('iteration on a symbolic text')
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if v is None or isinstance(v, (int, bool)) or isinstance(v, (Sym, IFunc, Bound)):
            raise Raised(ExcVal(TypeError, ('not iterable',)))
        if isinstance(v, (set, frozenset)):
            try:
                v = sorted(v, key=str)
            except Exception:
                v = list(v)
            return VList([one(x) for x in v], epoch=self.ctx.epoch)
        try:
            return VList([one(x) for x in v], epoch=self.ctx.epoch)
        except TypeError:
            raise Raised(ExcVal(TypeError, ('not iterable',)))

    def repeated(self, d):
        """may two of the pairs of the dictionary have the same key"""
        if not getattr(d, 'may_repeat', False):
            return False
        parts = d.parts
        for i, p in enumerate(parts):
            for j, q in enumerate(parts[:i + 1]):
                if is_one(p) and is_one(q):
                    continue
                a, b = rename(self.ctx, p), rename(self.ctx, q)
                f = z3.And(a.guard, b.guard, self.key_eq(a.value[0], b.value[0]))
                if i == j:
                    if not p.vars:
                        continue
                    f = z3.And(f, z3.Or([x != y for x, y in zip(a.vars, b.vars)]))
                if self.ctx.feasible(f):
                    return True
        return False

    def to_set(self, v):
        if isinstance(v, VSet):
            self.touch(v)
            return v
        if isinstance(v, VDict):
            self.touch(v)
            return VSet([Part(p.vars, p.guard, p.value[0], p.n) for p in v.parts], epoch=self.ctx.epoch)
        s = self.to_seq(v)
        return VSet(s.parts, epoch=self.ctx.epoch)

    def elem_type(self, parts):
        ts = set()
        for p in parts:
            v = p.value
            if isinstance(v, SRef):
                ts.add(v.typ)
            elif isinstance(v, Sym):
                ts.add({SInt: 'int', SBool: 'bool', SStr: 'str', SKey: 'key'}[type(v)])
            else:
                s = self.as_sym(v)
                if s is None:
                    return None
                ts.add(s.typ if isinstance(s, SRef) else {SInt: 'int', SBool: 'bool', SStr: 'str'}[type(s)])
        return ts.pop() if len(ts) == 1 else None

    def z_of(self, v):
        s = self.as_sym(v)
        if s is None:
            raise Unsupported('value %r in a symbolic sequence' % (v,))
        return s.z

    def enumerate_set(self, v):
        """the elements of a set in an unspecified order, without repetition"""
        ctx = self.ctx
        if v.concrete and len(v.parts) <= 4:
            out = []
            for x in v.items():
                if not any(self.truth(self.wrap_bool(self.key_eq(x, y))) for y in out):
                    out.append(x)
            r = VList([one(x) for x in out], epoch=ctx.epoch)
            r.unordered = len(out) > 1
            return r
        t = self.elem_type(v.parts)
        if t is None:
            b = self.box(VList(v.parts))
            if b is None:
                raise Unsupported('list of a set of composite values')
            v, t = VSet(b.parts), self.elem_type(b.parts)
        r = self.fresh_seq('set', t)
        n, at = r.parts[0].n, r.at
        i, j = z3.Int(ctx.name('i')), z3.Int(ctx.name('j'))
        mk = self.elem_term(at, t)
        inr = lambda k: z3.And(k >= 0, k < n)
        # every element comes from the set, every element of the set is there, no repetition
        src = []
        for p in v.parts:
            q = rename(ctx, p)
            src.append(exists(q.vars, z3.And(q.guard, at(i) == self.z_of(q.value))))
        ctx.assume(z3.ForAll([i], z3.Implies(inr(i), z3.Or(src)), patterns=[at(i)]))
        for p in v.parts:
            q = rename(ctx, p)
            pos = z3.Function(ctx.name('pos'), *([b.sort() for b in ctx.bound + q.vars] + [z3.IntSort()]))(*(ctx.bound + q.vars)) \
                if ctx.bound + q.vars else ctx.fresh('pos', z3.IntSort())
            ctx.assume(forall(q.vars, q.guard, z3.And(inr(pos), self.key_eq(mk(pos), q.value))))
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i != j), z3.Not(self.key_eq(mk(i), mk(j)))),
                             patterns=[z3.MultiPattern(at(i), at(j))]))
        r.bag = ('set', self.canon_parts(v.parts))
        return r

    def canon_parts(self, parts):
        out = []
        for p in parts:
            pairs = [(x, z3.Const('_c%d' % k, x.sort())) for k, x in enumerate(p.vars)]
            out.append('%s|%s' % (z_subst(p.guard, pairs).sexpr(), self.canon(v_subst(p.value, pairs))))
        return ' ; '.join(out)

    def canon(self, v):
        if isinstance(v, Sym):
            return z3.simplify(v.z).sexpr()
        if isinstance(v, (tuple, list)):
            return '(' + ','.join(map(self.canon, v)) + ')'
        if isinstance(v, (VList, VSet)):
            return '[' + self.canon_parts(v.parts) + ']'
        s = self.as_sym(v)
        if s is not None:
            return s.z.sexpr()
        return repr(v)

    def opaque(self, op, parts, sort):
        """uninterpreted value of an operation on a sequence, the same for syntactically equal sequences"""
        k = '%s<%s>' % (op, self.canon_parts(parts))
        if self.ctx.bound:
            used = [b for b in self.ctx.bound if str(b) in k]
            if used:
                pairs = [(b, z3.Const('_d%d' % i, b.sort())) for i, b in enumerate(used)]
                k = short(op, self.canon_parts([p_subst(p, pairs) for p in parts]))
                self.ctx.taint('%s of an unbounded sequence' % op, k)
                return z3.Function(k, *([b.sort() for b in used] + [sort]))(*used)
        k = short(op, k)
        self.opaques[k] = (op, list(parts))
        self.ctx.taint('%s of an unbounded sequence' % op, k)
        return z3.Const(k, sort)

    def length(self, l):
        if l.concrete and not isinstance(l, VSet):
            return len(l.parts)
        if isinstance(l, VSet):
            if l.concrete and len(l.parts) <= 1:
                return len(l.parts)
            n = self.opaque('card', l.parts, z3.IntSort())
            ne = self.nonempty(l)
            ne = z3.BoolVal(ne) if isinstance(ne, bool) else ne
            same = []
            for p in l.parts:
                for q in l.parts:
                    a, b = rename(self.ctx, p), rename(self.ctx, q)
                    same.append(forall(a.vars + b.vars, z3.And(a.guard, b.guard), self.key_eq(a.value, b.value)))
            k = ('card', n.get_id())
            if k not in self.ctx.facts:
                self.ctx.facts.add(k)
                self.ctx.keep.append(n)
                self.ctx.assume(n >= 0)
                self.ctx.assume((n > 0) == ne)
                self.ctx.assume((n <= 1) == conj(same))
                # as many as the elements iff they are all different
                tot = self.length(VList(l.parts))
                tot = z3.IntVal(tot) if isinstance(tot, int) else tot.z
                diff = []
                for x, p in enumerate(l.parts):
                    a, b = rename(self.ctx, p), rename(self.ctx, p)
                    if a.vars:
                        diff.append(forall(a.vars + b.vars, z3.And(a.guard, b.guard, z3.Or([
                            u != w for u, w in zip(a.vars, b.vars)])), z3.Not(self.key_eq(a.value, b.value))))
                    for q in l.parts[x + 1:]:
                        b = rename(self.ctx, q)
                        diff.append(forall(a.vars + b.vars, z3.And(a.guard, b.guard), z3.Not(self.key_eq(a.value, b.value))))
                self.ctx.assume(n <= tot)
                self.ctx.assume((n == tot) == conj(diff))
            return SInt(n)
        tot = z3.IntVal(0)
        for p in l.parts:
            if is_one(p):
                tot = tot + 1
            elif p.n is not None:
                tot = tot + p.n
            elif self.count_part(p) is not None:
                tot = tot + self.count_part(p)
            else:
                c = self.opaque('count', [Part(p.vars, p.guard, 0)], z3.IntSort())
                k = ('count', c.get_id())
                if k not in self.ctx.facts:
                    self.ctx.facts.add(k)
                    self.ctx.keep.append(c)
                    self.ctx.assume(c >= 0)
                    self.ctx.assume((c > 0) == exists(p.vars, p.guard))
                    if p.vars:
                        q, r = rename(self.ctx, p), rename(self.ctx, p)
                        self.ctx.assume((c <= 1) == forall(q.vars + r.vars, z3.And(q.guard, r.guard), conj(
                            [x == y for x, y in zip(q.vars, r.vars)])))
                tot = tot + c
        return SInt(z3.simplify(tot))

    def count_part(self, p):
        """number of the elements of a part whose variables range over intervals [0, n), or None"""
        gs = []
        todo = [p.guard]
        while todo:
            g = todo.pop()
            if z3.is_and(g):
                todo += g.children()
            elif not z3.is_true(g):
                gs.append(g)
        his = []
        for x in p.vars:
            if x.sort() != z3.IntSort():
                return None
            lo = [g for g in gs if z3.is_ge(g) and g.arg(0).eq(x) and z3.is_int_value(g.arg(1)) and g.arg(1).as_long() == 0]
            hi = [g for g in gs if z3.is_lt(g) and g.arg(0).eq(x)]
            if len(lo) != 1 or len(hi) != 1:
                return None
            his.append(hi[0].arg(1))
            gs = [g for g in gs if not g.eq(lo[0]) and not g.eq(hi[0])]
        if gs:
            return None
        from .loops import occurs
        tot = z3.IntVal(1)
        for k in reversed(range(len(p.vars))):
            n = z3.simplify(z3.If(his[k] < 0, 0, his[k]))
            if any(occurs(n, [x]) for x in p.vars[k:]):
                return None
            if occurs([n], p.vars[:k]):
                if k != 1 or not z3.is_int_value(z3.simplify(tot)) or not z3.simplify(tot).as_long() == 1:
                    return None
                return self.opaque('sum', [Part(p.vars[:1], z3.And(p.vars[0] >= 0, p.vars[0] < his[0]), SInt(his[1]), his[0])],
                                   z3.IntSort())
            tot = tot * n
        return z3.simplify(tot)

    def index(self, l, i):
        """l[i]"""
        ctx = self.ctx
        if l.concrete:
            n = len(l.parts)
            if isinstance(i, SInt):
                s = z3.simplify(i.z)
                if z3.is_int_value(s):
                    i = s.as_long()
                else:
                    for k in range(n):
                        if ctx.branch(i.z == k):
                            return l.parts[k].value
                    for k in range(1, n + 1):
                        if ctx.branch(i.z == -k):
                            return l.parts[n - k].value
                    raise Raised(ExcVal(IndexError, ('index',)))
            if not isinstance(i, int):
                raise Raised(ExcVal(TypeError, ('index',)))
            if not -n <= i < n:
                raise Raised(ExcVal(IndexError, ('list index out of range',)))
            return l.parts[i].value
        if l.unordered:
            raise Unsupported('index in a list of unknown order')
        if isinstance(i, int) and 0 <= i < len(l.parts) and all(is_one(p) for p in l.parts[:i + 1]):
            return l.parts[i].value
        p = self.single(l)
        if p is None:
            raise Unsupported('index in a composed list')
        z = i.z if isinstance(i, SInt) else z3.IntVal(i)
        if isinstance(i, int) and i < 0 or isinstance(i, SInt) and ctx.branch(z < 0):
            z = p.n + z
        if not ctx.branch(z3.And(z >= 0, z < p.n)):
            raise Raised(ExcVal(IndexError, ('list index out of range',)))
        v = v_subst(p.value, [(p.vars[0], z3.simplify(z))])
        self.touch_deep(v)
        return v

    def touch_deep(self, v):
        if isinstance(v, SRef):
            self.facts_of(v)
        elif isinstance(v, tuple):
            for x in v:
                self.touch_deep(x)

    def slice(self, l, lo, hi, step):
        kind = l.kind
        if step not in (None, 1, -1):
            raise Unsupported('slice step')
        if l.concrete:
            for x in (lo, hi):
                if x is not None and not isinstance(x, int):
                    raise Unsupported('symbolic slice of a concrete list')
            return VList(l.parts[slice(lo, hi, step)], kind=kind, epoch=self.ctx.epoch)
        if lo in (None, 0) and hi is None and step in (None, 1):
            r = VList(l.parts, kind=kind, epoch=self.ctx.epoch)
            r.unordered, r.bag = l.unordered, l.bag
            return r
        p = self.single(l)
        if p is None or step == -1:
            raise Unsupported('slice')
        i = p.vars[0]
        zz = lambda x: x.z if isinstance(x, SInt) else z3.IntVal(x)
        norm = lambda x: z3.If(x < 0, z3.If(p.n + x < 0, z3.IntVal(0), p.n + x), z3.If(x > p.n, p.n, x))
        a = norm(zz(lo)) if lo is not None else z3.IntVal(0)
        b = norm(zz(hi)) if hi is not None else p.n
        n = z3.simplify(z3.If(b - a < 0, z3.IntVal(0), b - a))
        return VList([indexed(self.ctx, n, lambda j: v_subst(p.value, [(i, z3.simplify(j + a))]))], kind=kind,
                     epoch=self.ctx.epoch)

    def sort(self, l, key=None, reverse=False):
        """-> sorted VList"""
        ctx = self.ctx
        if l.concrete and len(l.parts) <= 1:
            return VList(l.parts, epoch=ctx.epoch)
        if l.concrete and not any(is_sym(v) for v in l.items()) and key is None:
            try:
                return VList([one(x) for x in sorted(l.items(), reverse=reverse)], epoch=ctx.epoch)
            except TypeError as e:
                raise Raised(ExcVal(TypeError, (str(e),), e))
        if l.concrete and len(l.parts) <= 4:
            out = []
            for v in l.items():
                k = self.call(key, [v], {}) if key is not None else v
                i = 0
                # stable insertion: v goes before the first element greater than it
                while i < len(out):
                    x, y = (out[i][0], k) if reverse else (k, out[i][0])
                    if self.truth(self.lt(x, y)):
                        break
                    i += 1
                out.insert(i, (k, v))
            return VList([one(v) for _, v in out], epoch=ctx.epoch)
        t = self.elem_type(l.parts)
        if t is None and key is None:
            b = self.box(l)
            if b is not None:
                l, t = b, self.elem_type(b.parts)
        if t is None or isinstance(t, str) and t == 'bool':
            raise Unsupported('sort of composite values')
        n = self.length(l)
        n = z3.IntVal(n) if isinstance(n, int) else n.z
        if nonlinear(n):
            m = ctx.fresh('length', z3.IntSort())
            ctx.assume(m == n)
            ctx.assume(m >= 0)
            n = m
        r = self.fresh_seq('sorted', t, n=n)
        at = r.at
        mk = self.elem_term(at, t)
        i, j = z3.Int(ctx.name('i')), z3.Int(ctx.name('j'))
        inr = lambda k: z3.And(k >= 0, k < n)
        src = []
        p = self.single(l)
        if p is not None:
            perm = z3.Function(ctx.name('perm'), *([b.sort() for b in ctx.bound] + [z3.IntSort(), z3.IntSort()]))
            inv = z3.Function(ctx.name('mrep'), *([b.sort() for b in ctx.bound] + [z3.IntSort(), z3.IntSort()]))
            pz = lambda k: perm(*(ctx.bound + [k]))
            qz = lambda k: inv(*(ctx.bound + [k]))
            r.perm = pz
            ctx.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(pz(i)), qz(pz(i)) == i,
                                                                at(i) == self.z_of(v_subst(p.value, [(p.vars[0], pz(i))])))),
                                 patterns=[at(i)]))
            ctx.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(qz(i)), pz(qz(i)) == i,
                                                                at(qz(i)) == self.z_of(v_subst(p.value, [(p.vars[0], i)]))))))
        else:
            for p in l.parts:
                q = rename(ctx, p)
                src.append(exists(q.vars, z3.And(q.guard, at(i) == self.z_of(q.value))))
                vs = ctx.bound + q.vars
                pos = z3.Function(ctx.name('pos'), *([b.sort() for b in vs] + [z3.IntSort()]))(*vs) if vs else \
                    ctx.fresh('pos', z3.IntSort())
                ctx.assume(forall(q.vars, q.guard, z3.And(inr(pos), at(pos) == self.z_of(q.value))))
            ctx.assume(z3.ForAll([i], z3.Implies(inr(i), z3.Or(src)), patterns=[at(i)]))
        less = self.order_formula(mk(j), mk(i), t, key) if reverse else self.order_formula(mk(i), mk(j), t, key)
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), j < i), z3.Not(less)),
                             patterns=[z3.MultiPattern(at(i), at(j))]))
        r.sorted_by = ('reverse', key) if reverse else key
        r.bag = l.bag or ('bag', self.canon_parts(l.parts))
        r.sorted_from = list(l.parts)
        return r

    def box(self, l):
        """tuples as references of a declared type with fields (self.box_types), so that they can be sorted"""
        for typ in getattr(self, 'box_types', ()):
            fs = typ.fields
            parts = []
            for p in l.parts:
                t = p.value
                if isinstance(t, SRef) and t.typ is typ:
                    parts.append(p)
                    continue
                if isinstance(t, VList) and t.kind == 'tuple' and t.concrete:
                    t = tuple(t.items())
                if not (isinstance(t, tuple) and len(t) == len(fs)):
                    parts = None
                    break
                vs = self.ctx.bound + p.vars
                z = z3.Function(self.ctx.name('box'), *([b.sort() for b in vs] + [Ref]))(*vs) if vs else \
                    self.ctx.fresh('box', Ref)
                eqs = []
                for f, x in zip(fs, t):
                    if isinstance(typ.attrs[f], T.Seq):
                        l2 = self.to_seq(x)
                        n = self.length(l2)
                        n = z3.IntVal(n) if isinstance(n, int) else n.z
                        eqs.append(typ.len(f, z) == n)
                        if l2.concrete:
                            eqs += [typ.at(f, z, z3.IntVal(i)) == self.z_of(y) for i, y in enumerate(l2.items())]
                        else:
                            q = self.single(l2)
                            if q is None:
                                raise Unsupported('sort of tuples of lists')
                            q = rename(self.ctx, q)
                            zv, za = self.z_of(q.value), typ.at(f, z, q.vars[0])
                        pats = [za]
                        if z3.is_app(zv) and zv.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                                any(x.eq(q.vars[0]) for x in zv.children()):
                            pats.append(zv)
                        eqs.append(z3.ForAll(q.vars, z3.Implies(q.guard, za == zv), patterns=pats))
                    else:
                        eqs.append(typ.z(f, z) == self.as_sym(x).z)
                self.ctx.assume(forall(p.vars, p.guard, conj(eqs)))
                parts.append(Part(p.vars, p.guard, SRef(z, typ), p.n))
            if parts is not None:
                r = VList(parts)
                r.unordered = getattr(l, 'unordered', False)
                return r
        return None

    def order_formula(self, a, b, t, key):
        """a < b as a formula, by the contract of the order of the type"""
        if key is not None:
            out = self.ctx.sub(lambda: (self.call(key, [a], {}), self.call(key, [b], {})), [])
            if len(out) != 1:
                raise Unsupported('sort key with cases')
            a, b = out[0][1]
            if not isinstance(a, (SInt, SKey, SStr)):
                raise Unsupported('sort key')
            return a.z < b.z
        if isinstance(t, str):
            return a.z < b.z
        return self.type_lt(t)(a.z, b.z)

    def type_lt(self, t):
        f = z3.Function('lt.' + t.name, Ref, Ref, z3.BoolSort())
        k = ('lt', t.name)
        if k not in self.ctx.facts:
            if t.name not in self.axioms_done:
                x, y, w = z3.Consts('x y w', Ref)
                key = (lambda z: t.z(t.key, z)) if t.key else (lambda z: z)
                self.lt_axioms = getattr(self, 'lt_axioms', {})
                self.lt_axioms[t.name] = [
                    z3.ForAll([x, y], z3.Not(z3.And(f(x, y), f(y, x))), patterns=[f(x, y)]),
                    z3.ForAll([x, y], z3.Implies(z3.And(z3.Not(f(x, y)), z3.Not(f(y, x))), key(x) == key(y)),
                              patterns=[f(x, y)]),
                    z3.ForAll([x, y], z3.Implies(key(x) == key(y), z3.Not(f(x, y))), patterns=[f(x, y)]),
                    z3.ForAll([x, y, w], z3.Implies(z3.And(f(x, y), f(y, w)), f(x, w)),
                              patterns=[z3.MultiPattern(f(x, y), f(y, w))])]
                self.axioms_done.add(t.name)
            self.ctx.facts.add(k)
            for a in self.lt_axioms[t.name]:
                self.ctx.assume(a)
            self.ctx.assumed.add('the order of %s objects is a strict total order compatible with == (contract of __lt__, '
                                 'proved as its own obligation where listed)' % t.name)
        return f

    # ================================================================ attributes

    def mro_lookup(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k, k.__dict__[name]
        return None, None

    def has_method(self, v, name):
        if isinstance(v, HObj):
            if name in (getattr(v, 'methods', None) or ()):
                return True
            k, f = self.mro_lookup(v.cls, name)
            return k is not None and k is not object
        if name in v.typ.methods:
            return True
        for c in v.typ.classes:
            k, f = self.mro_lookup(c, name)
            if k is None or k is object:
                return False
        return True

    def bind_class_attr(self, obj, cls, k, f, name):
        if isinstance(f, property):
            return self.call(self.real_func(f.fget, k), [obj], {})
        if isinstance(f, staticmethod):
            return self.real_func(f.__func__, k)
        if isinstance(f, classmethod):
            return Bound(cls, self.real_func(f.__func__, k))
        if isinstance(f, types.FunctionType):
            return Bound(obj, self.real_func(f, k))
        if type(f).__name__ == 'cached_property':
            return self.call(self.real_func(getattr(f, '_factory', None) or f.func, k), [obj], {})
        if isinstance(f, functools._lru_cache_wrapper):
            return Bound(obj, self.real_func(f.__wrapped__, k))
        if type(f).__name__ in ('wrapper_descriptor', 'method_descriptor', 'slot_wrapper'):
            return Bound(obj, f)
        return f

    def real_func(self, f, cls=None):
        """a real function as it is called: interpreted when it belongs to the repository"""
        return f

    def getattr(self, v, name):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, HObj):
            if name in v.attrs:
                self.touch(v)
                return v.attrs[name]
            if name == '__class__':
                return v.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            m = getattr(v, 'methods', None)
            if m and name in m:
                return m[name](self, v)
            k, f = self.mro_lookup(v.cls, name)
            if k is None:
                if v.partial:
                    raise Unsupported('attribute %s of an object of the contract' % name)
                raise Raised(ExcVal(AttributeError, (name,)))
            return self.bind_class_attr(v, v.cls, k, f, name)
        if isinstance(v, SRef):
            return self.ref_attr(v, name)
        if isinstance(v, SuperX):
            cls = v.obj.cls if isinstance(v.obj, HObj) else None
            if cls is None and isinstance(v.obj, type):
                cls = v.obj
            if cls is None and isinstance(v.obj, SRef) and len(v.obj.typ.classes) == 1:
                cls = v.obj.typ.classes[0]
            if cls is None:
                raise Unsupported('super of a symbolic object')
            mro = list(cls.__mro__)
            for k in mro[mro.index(v.cls) + 1:]:
                if name in k.__dict__:
                    f = k.__dict__[name]
                    if isinstance(f, staticmethod):
                        return f.__func__
                    return self.bind_class_attr(v.obj, cls, k, f, name)
            raise Raised(ExcVal(AttributeError, (name,)))
        if isinstance(v, (VList, VSet, VDict, SStr, VIter)):
            return Builtin(v, name)
        if isinstance(v, (str, bytes)) or isinstance(v, (list, dict, set, tuple, frozenset)):
            return Builtin(v, name)
        if isinstance(v, ExcVal):
            if name == 'args':
                return v.args
            if name == '__class__':
                return v.cls
            if name in v.attrs:
                return v.attrs[name]
            raise Unsupported('attribute of an exception')
        if isinstance(v, (SInt, SKey)) and name == '__hash__':
            return Builtin(v, name)
        if isinstance(v, (SInt, SBool, SKey)):
            raise Unsupported('attribute %s of a number' % name)
        if isinstance(v, (IFunc, Bound, Stub)):
            if name == '__name__':
                return getattr(v, 'name', '?')
            raise Unsupported('attribute of a function')
        try:
            return getattr(v, name)
        except AttributeError as e:
            raise Raised(ExcVal(AttributeError, (name,), e))

    def ref_attr(self, v, name):
        t = v.typ
        self.facts_of(v)
        if name in t.attrs:
            return self.typed(v, name, t.attrs[name])
        if name in t.methods:
            return t.methods[name](self, v)
        if name == '__class__':
            if len(t.classes) == 1:
                return t.classes[0]
            return t.classes[self.split_class(v)]
        cand = [(c,) + self.mro_lookup(c, name) for c in t.classes]
        if all(f is cand[0][2] for _, _, f in cand):
            c, k, f = cand[0]
            if k is None:
                raise Unsupported('attribute %s of a %s' % (name, t.name))
            return self.bind_class_attr(v, c, k, f, name)
        c, k, f = cand[self.split_class(v)]
        if k is None:
            raise Unsupported('attribute %s of a %s' % (name, t.name))
        return self.bind_class_attr(v, c, k, f, name)

    def split_class(self, v):
        for i in range(len(v.typ.classes) - 1):
            if self.ctx.branch(v.typ.tag(v.z) == i):
                return i
        return len(v.typ.classes) - 1

    def typed(self, v, name, d):
        t = v.typ
        if isinstance(d, T.Opt):
            if self.ctx.branch(t.none(name, v.z)):
                return None
            d = d.elem
        if isinstance(d, str):
            return MK[d](t.fun(name, d)(v.z))
        if isinstance(d, (T.Obj, ObjType)):
            return self.ref(t.fun(name, 'ref')(v.z), d.typ if isinstance(d, T.Obj) else d)
        if isinstance(d, T.Seq):
            n = t.len(name, v.z)
            e = d.elem
            f = lambda i: t.at(name, v.z, i)
            return VList([indexed(self.ctx, n, self.elem_term(f, e))], frozen=True, kind=d.kind, epoch=-1)
        if isinstance(d, T.Set):
            name = getattr(t, 'set_of', {}).get(name, name)   # contract of the attribute: the set of another one
            n = t.len(name, v.z)
            f = lambda i: t.at(name, v.z, i)
            return VSet([indexed(self.ctx, n, self.elem_term(f, d.elem))], epoch=-1)
        if isinstance(d, T.Enum):
            f = z3.Function('%s.%s' % (t.name, name), Ref, z3.IntSort())(v.z)
            for i in range(len(d.values) - 1):
                if self.ctx.branch(f == i):
                    return d.values[i]
            self.ctx.assume(f == len(d.values) - 1)
            return d.values[-1]
        if callable(d):
            return d(self, v)
        raise Unsupported('attribute %s' % name)

    def setattr(self, v, name, val):
        if isinstance(v, HObj):
            if v.epoch < self.ctx.epoch:
                raise Unsupported('a loop body assigns an attribute')
            k, f = self.mro_lookup(v.cls, name)
            if isinstance(f, property):
                if f.fset is None:
                    raise Raised(ExcVal(AttributeError, (name,)))
                return self.call(f.fset, [v, val], {})
            hook = getattr(v, 'on_set', None)
            if hook:
                hook(self, v, name, val)
            v.attrs[name] = val
            return
        if isinstance(v, SRef) and name in getattr(v.typ, 'setters', {}):
            return v.typ.setters[name](self, v, val)
        if isinstance(v, ExcVal):
            v.attrs[name] = val
            return
        raise Unsupported('assignment of attribute %s of %r' % (name, type(v).__name__))

    # ================================================================ calls

    def call(self, f, args, kwargs):
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        if isinstance(f, Stub):
            return f.f(self, args, kwargs)
        if isinstance(f, Builtin):
            from .builtin import call_method
            return call_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, Bound):
            g = f.func
            if isinstance(g, (types.FunctionType, IFunc)):
                return self.call(g, [f.obj] + list(args), kwargs)
            if g is object.__init__:
                return None
            from .builtin import call_descriptor
            return call_descriptor(self, f.obj, g, args, kwargs)
        if isinstance(f, types.MethodType):
            if is_sym(f.__self__):
                raise Unsupported('method of a symbolic value')
            if in_repo(f.__func__):
                return self.call(f.__func__, [f.__self__] + list(args), kwargs)
            return self.native(f, args, kwargs)
        if isinstance(f, IFunc):
            c = self.ctx.contracts.get(f.key)
            if c is not None:
                self.ctx.used.add(f.key)
                self.called = f
                return c(self, args, kwargs)
            return self.call_ifunc(f, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), dict(f.keywords, **kwargs))
        if isinstance(f, functools._lru_cache_wrapper):
            f = f.__wrapped__
        if isinstance(f, types.FunctionType):
            key = f.__module__ + ':' + f.__qualname__
            c = self.ctx.contracts.get(key)
            if c is not None:
                self.ctx.used.add(key)
                return c(self, args, kwargs)
            from .builtin import FUNCS
            if f in FUNCS:
                return FUNCS[f](self, args, kwargs)
            if in_repo(f):
                return self.call_ifunc(self.ifunc(f), args, kwargs)
            return self.native(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, (SRef, HObj)):
            if self.has_method(f, '__call__'):
                return self.call(self.getattr(f, '__call__'), args, kwargs)
            raise Unsupported('call of an object')
        from .builtin import FUNCS
        try:
            h = FUNCS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, args, kwargs)
        if isinstance(f, types.BuiltinMethodType) and f.__self__ is not None and not isinstance(f.__self__, types.ModuleType):
            from .builtin import call_method
            return call_method(self, f.__self__, f.__name__, args, kwargs)
        return self.native(f, args, kwargs)

    def native(self, f, args, kwargs):
        if any(is_sym(a) for a in args) or any(is_sym(a) for a in kwargs.values()) or is_sym(f):
            a = [self.concretize(x) for x in args]
            k = {n: self.concretize(x) for n, x in kwargs.items()}
            if any(x is NotImplemented for x in a) or any(x is NotImplemented for x in k.values()):
                raise Unsupported('call of %s with symbolic arguments' % getattr(f, '__name__', f))
            args, kwargs = a, k
        try:
            return f(*args, **kwargs)
        except (Unsupported, Infeasible, Raised):
            raise
        except Exception as e:
            raise Raised(ExcVal(type(e), e.args, e))

    def concretize(self, v):
        """a python value without symbolic part, or NotImplemented"""
        if isinstance(v, VList) and v.concrete:
            l = [self.concretize(x) for x in v.items()]
            if any(x is NotImplemented for x in l):
                return NotImplemented
            return tuple(l) if v.kind == 'tuple' else l
        if isinstance(v, VSet) and v.concrete:
            l = [self.concretize(x) for x in v.items()]
            return NotImplemented if any(x is NotImplemented for x in l) else set(l)
        if isinstance(v, VDict) and v.concrete:
            l = [(self.concretize(p.value[0]), self.concretize(p.value[1])) for p in v.parts]
            return NotImplemented if any(x is NotImplemented for kv in l for x in kv) else dict(l)
        if isinstance(v, tuple):
            l = [self.concretize(x) for x in v]
            return NotImplemented if any(x is NotImplemented for x in l) else tuple(l)
        if is_sym(v):
            return NotImplemented
        return v

    def ifunc(self, f):
        """the source of a real function of the repository"""
        f = unwrap(f)
        code = f.__code__
        nodes = load_ast(code.co_filename).get((code.co_firstlineno, code.co_name), [])
        if len(nodes) != 1:
            raise Unsupported('source of %s not found' % f.__qualname__)
        closure = {}
        if f.__closure__:
            for n, c in zip(code.co_freevars, f.__closure__):
                try:
                    closure[n] = c.cell_contents
                except ValueError:
                    pass
        cls = closure.get('__class__')
        if cls is None and '.' in f.__qualname__ and '<locals>' not in f.__qualname__:
            import sys
            o = sys.modules.get(f.__module__)
            for part in f.__qualname__.split('.')[:-1]:
                o = getattr(o, part, None)
            cls = o
        return IFunc(nodes[0], f.__globals__, None, f.__name__, f.__qualname__, f.__module__, cls,
                     f.__defaults__ or (), f.__kwdefaults__, closure)

    def call_ifunc(self, f, args, kwargs):
        if self.depth > self.inline_limit:
            raise Unsupported('recursion without contract in %s' % f.qualname)
        self.ctx.used.add(f.key)
        env = Env(f, f.env)
        self.bind(f, env, list(args), dict(kwargs))
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            if is_generator(f.node):
                env.yields = VList(epoch=self.ctx.epoch, kind='list')
                try:
                    self.block(f.node.body, env)
                except ReturnX:
                    pass
                return VIter(env.yields, 0, self.ctx.epoch)
            try:
                self.block(f.node.body, env)
            except ReturnX as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def bind(self, f, env, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        for n in pos:
            if args:
                env.vars[n] = args.pop(0)
        if args:
            if a.vararg is None:
                raise Raised(ExcVal(TypeError, ('too many arguments',)))
            env.vars[a.vararg.arg] = tuple(args)
        elif a.vararg is not None:
            env.vars[a.vararg.arg] = ()
        names = pos + [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in names:
                if k in env.vars:
                    raise Raised(ExcVal(TypeError, ('multiple values for %s' % k,)))
                env.vars[k] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            env.vars[a.kwarg.arg] = VDict([one((k, v)) for k, v in rest.items()], epoch=self.ctx.epoch)
        elif rest:
            raise Raised(ExcVal(TypeError, ('unexpected argument %s' % list(rest),)))
        d = f.defaults
        for n, v in zip(pos[len(pos) - len(d):], d):
            if n not in env.vars:
                env.vars[n] = v
        for n, v in f.kwdefaults.items():
            if n not in env.vars:
                env.vars[n] = v
        for n in names:
            if n not in env.vars:
                raise Raised(ExcVal(TypeError, ('missing argument %s' % n,)))

    def instantiate(self, cls, args, kwargs):
        from .builtin import FUNCS
        h = FUNCS.get(cls)
        if h is not None:
            return h(self, args, kwargs)
        key = cls.__module__ + ':' + cls.__qualname__
        c = self.ctx.contracts.get(key)
        if c is not None:
            self.ctx.used.add(key)
            return c(self, args, kwargs)
        if issubclass(cls, BaseException):
            if any(is_sym(a) for a in list(args) + list(kwargs.values())):
                return ExcVal(cls, args)
            try:
                e = cls(*args, **kwargs)
            except Exception:
                return ExcVal(cls, args)
            return ExcVal(cls, getattr(e, 'args', ()), e)
        k, init = self.mro_lookup(cls, '__init__')
        import enum
        if issubclass(cls, enum.Enum):
            return self.native(cls, args, kwargs)
        if not (isinstance(init, types.FunctionType) and in_repo(init)) and init is not object.__init__:
            return self.native(cls, args, kwargs)
        if init is object.__init__ and not cls.__module__.startswith('ieml'):
            return self.native(cls, args, kwargs)
        if type(cls) is not type:
            raise Unsupported('metaclass of %s' % cls.__name__)
        o = HObj(cls, epoch=self.ctx.epoch)
        o.partial = False
        kn, new = self.mro_lookup(cls, '__new__')
        if kn is not object:
            n = new.__func__ if isinstance(new, staticmethod) else new
            o = self.call(n, [cls] + list(args), kwargs)
            if not isinstance(o, HObj):
                raise Unsupported('__new__ of %s' % cls.__name__)
        if init is not object.__init__:
            self.call(init, [o] + list(args), kwargs)
        return o

    # ================================================================ statements

    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s line %d' % (type(s).__name__, s.lineno))
        m(s, env)

    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def st_Pass(self, s, env):
        pass

    def st_Return(self, s, env):
        raise ReturnX(self.ev(s.value, env) if s.value is not None else None)

    def st_Break(self, s, env):
        raise BreakX()

    def st_Continue(self, s, env):
        raise ContinueX()

    def st_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def st_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise Raised(ExcVal(AssertionError, ()))

    def st_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def st_AugAssign(self, s, env):
        load = ast.copy_location(to_load(s.target), s.target)
        cur = self.ev(load, env)
        val = self.ev(s.value, env)
        if isinstance(cur, (VList,)) and isinstance(s.op, ast.Add) and cur.kind == 'list':
            self.extend(cur, val)
            return
        if isinstance(cur, VSet) and isinstance(s.op, ast.BitOr):
            self.set_update(cur, val)
            return
        self.assign(s.target, self.binop(s.op, cur, val), env)

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                c, i = self.ev(t.value, env), self.ev_index(t.slice, env)
                if isinstance(c, (SRef, HObj)) and self.has_method(c, '__delitem__'):
                    self.call(self.getattr(c, '__delitem__'), [i], {})
                elif isinstance(c, VDict):
                    self.call(self.getattr(c, 'pop'), [i], {})
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def st_Global(self, s, env):
        env.globals_decl |= set(s.names)

    def st_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def st_Import(self, s, env):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            env.vars[a.asname or a.name.split('.')[0]] = m if a.asname else importlib.import_module(a.name.split('.')[0])

    def st_ImportFrom(self, s, env):
        import importlib
        base = s.module or ''
        if s.level:
            pk = env_globals(env).get('__package__') or ''
            pk = pk.split('.')
            pk = '.'.join(pk[:len(pk) - s.level + 1])
            base = pk + ('.' + base if base else '')
        m = importlib.import_module(base)
        for a in s.names:
            try:
                v = getattr(m, a.name)
            except AttributeError:
                v = importlib.import_module(base + '.' + a.name)
            env.vars[a.asname or a.name] = v

    def st_FunctionDef(self, s, env):
        f = IFunc(s, env_globals(env), env, s.name, env.func.qualname + '.<locals>.' + s.name, env.func.module,
                  env.func.cls, [self.ev(d, env) for d in s.args.defaults],
                  {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        env.vars[s.name] = v

    def st_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(env, 'current_exc', None)
            e = env
            while cur is None and e is not None:
                cur, e = getattr(e, 'current_exc', None), e.parent
            if cur is None:
                raise Unsupported('raise without exception')
            raise Raised(cur)
        v = self.ev(s.exc, env)
        if isinstance(v, type):
            v = self.instantiate(v, [], {})
        if isinstance(v, ExcVal):
            raise Raised(v)
        if isinstance(v, BaseException):
            raise Raised(ExcVal(type(v), v.args, v))
        if isinstance(v, HObj) and issubclass(v.cls, BaseException):
            raise Raised(ExcVal(v.cls, ()))
        if v is NotImplemented:
            raise Raised(ExcVal(TypeError, ('exceptions must derive from BaseException',)))
        raise Unsupported('raise of %r' % (v,))

    def st_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except Raised as r:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env)
                        if isinstance(t, VList):
                            t = tuple(t.items())
                        ok = issubclass(r.exc.cls, t)
                    if ok:
                        old = getattr(env, 'current_exc', None)
                        env.current_exc = r.exc
                        if h.name:
                            env.vars[h.name] = r.exc
                        try:
                            self.block(h.body, env)
                        finally:
                            env.current_exc = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (Unsupported, Infeasible):
            raise
        except (Raised, ReturnX, BreakX, ContinueX):
            self.block(s.finalbody, env)
            raise
        else:
            self.block(s.finalbody, env)

    def st_With(self, s, env):
        self.with_items(s.items, s.body, env)

    def with_items(self, items, body, env):
        if not items:
            return self.block(body, env)
        it = items[0]
        cm = self.ev(it.context_expr, env)
        v = self.call(self.getattr(cm, '__enter__'), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        exit_ = self.getattr(cm, '__exit__')
        try:
            self.with_items(items[1:], body, env)
        except Raised as r:
            if self.truth(self.call(exit_, [r.exc.cls, r.exc, None], {})):
                return
            raise
        except (ReturnX, BreakX, ContinueX):
            self.call(exit_, [None, None, None], {})
            raise
        self.call(exit_, [None, None, None], {})

    def st_While(self, s, env):
        if self.while_hook is not None and self.while_hook(self, s, env):
            return
        for _ in range(200):
            if not self.truth(self.ev(s.test, env)):
                self.block(s.orelse, env)
                return
            try:
                self.block(s.body, env)
            except BreakX:
                return
            except ContinueX:
                pass
        raise Unsupported('unbounded while loop')

    def st_For(self, s, env):
        from .loops import for_loop
        for_loop(self, s, env)

    # ---- assignment

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
                if e is None:
                    raise Unsupported('nonlocal')
                if self.ctx.frames and getattr(e, 'epoch', 0) < self.ctx.epoch:
                    raise Unsupported('nonlocal assignment in a loop body')
            if t.id in env.globals_decl:
                raise Unsupported('assignment of a global')
            e.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported('assignment')

    def unpack(self, elts, v, env):
        seq = self.to_seq(v)
        if not seq.concrete:
            p = self.single(seq)
            if p is None or any(isinstance(e, ast.Starred) for e in elts):
                raise Unsupported('unpacking of a symbolic sequence')
            if not self.ctx.branch(p.n == len(elts)):
                raise Raised(ExcVal(ValueError, ('unpack',)))
            items = [v_subst(p.value, [(p.vars[0], z3.IntVal(i))]) for i in range(len(elts))]
            for x in items:
                self.touch_deep(x)
        else:
            items = seq.items()
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            k = star[0]
            after = len(elts) - k - 1
            if len(items) < len(elts) - 1:
                raise Raised(ExcVal(ValueError, ('unpack',)))
            items = items[:k] + [VList([one(x) for x in items[k:len(items) - after]], epoch=self.ctx.epoch)] + \
                (items[len(items) - after:] if after else [])
        if len(items) != len(elts):
            raise Raised(ExcVal(ValueError, ('unpack',)))
        for e, x in zip(elts, items):
            self.assign(e, x, env)

    def setitem(self, c, i, v):
        if isinstance(c, (VList, VDict)):
            c.writable()
        if isinstance(c, VList):
            if c.kind == 'tuple':
                raise Raised(ExcVal(TypeError, ('tuple',)))
            if c.epoch < self.ctx.epoch:
                raise Unsupported('a loop body assigns an element')
            if c.frozen:
                raise Unsupported('assignment in a list of an immutable object')
            if c.concrete and isinstance(i, int):
                if not -len(c.parts) <= i < len(c.parts):
                    raise Raised(ExcVal(IndexError, ('index',)))
                c.parts[i] = one(v)
                return
            p = self.single(c)
            if p is not None and isinstance(v, SRef):
                z = i.z if isinstance(i, SInt) else z3.IntVal(i)
                if not self.ctx.branch(z3.And(z >= 0, z < p.n)):
                    raise Unsupported('index')
                if isinstance(p.value, SRef):
                    c.parts = [Part(p.vars, p.guard, SRef(z3.If(p.vars[0] == z, v.z, p.value.z), v.typ), p.n)]
                    return
            raise Unsupported('assignment of an element')
        if isinstance(c, VDict):
            if c.epoch < self.ctx.epoch:
                self.ctx.effects.append((c, 'setitem', (i, v)))
                return
            self.dict_set(c, i, v)
            return
        if isinstance(c, (SRef, HObj)):
            if self.has_method(c, '__setitem__'):
                return self.call(self.getattr(c, '__setitem__'), [i, v], {})
        raise Unsupported('assignment of an element of %s' % type(c).__name__)

    def dict_set(self, c, k, v):
        for n, p in enumerate(c.parts):
            if is_one(p):
                if self.truth(self.wrap_bool(self.key_eq(p.value[0], k))):
                    c.parts[n] = one((p.value[0], v))
                    return
            else:
                q = rename(self.ctx, p)
                if self.truth(self.wrap_bool(exists(q.vars, z3.And(q.guard, self.key_eq(q.value[0], k))))):
                    raise Unsupported('replacement in a symbolic dictionary')
        c.parts.append(one((k, v)))

    def append(self, l, v):
        l.writable()
        if l.kind == 'tuple':
            raise Raised(ExcVal(AttributeError, ('append',)))
        if l.frozen:
            raise Unsupported('append to a list of an immutable object')
        if l.epoch < self.ctx.epoch:
            self.ctx.effects.append((l, 'append', v))
        else:
            l.parts.append(one(v))
            l.bag = None

    def extend(self, l, v):
        l.writable()
        s = self.to_seq(v)
        if l.frozen:
            raise Unsupported('extend of a list of an immutable object')
        if l.epoch < self.ctx.epoch:
            self.ctx.effects.append((l, 'extend', s))
        else:
            l.parts += [rename(self.ctx, p) for p in s.parts]
            l.unordered = l.unordered or s.unordered
            l.bag = None

    def set_update(self, s, v):
        s.writable()
        q = self.to_set(v)
        if s.epoch < self.ctx.epoch:
            self.ctx.effects.append((s, 'extend', q))
        else:
            s.parts += [rename(self.ctx, p) for p in q.parts]

    # ================================================================ expressions

    def mangle(self, name, env):
        if name.startswith('__') and not name.endswith('__'):
            f = env.func
            if f is not None and f.cls is not None:
                return '_%s%s' % (f.cls.__name__.lstrip('_'), name)
        return name

    def ev(self, e, env):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s line %d' % (type(e).__name__, e.lineno))
        return m(e, env)

    def ev_Constant(self, e, env):
        return e.value

    def ev_Name(self, e, env):
        name = self.mangle(e.id, env)
        x = env
        while x is not None:
            if name in x.vars:
                v = x.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if x.func is not None and name in x.func.closure:
                return x.func.closure[name]
            x = x.parent
        g = env_globals(env)
        if self.globals and (g.get('__name__'), name) in self.globals:   # contract of a table of constants
            return self.globals[g.get('__name__'), name]
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise Raised(ExcVal(UnboundLocalError, (name,)))

    def ev_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), self.mangle(e.attr, env))

    def ev_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f, x = env.func, env
            while x is not None and (x.func is None or x.func.cls is None or not x.func.node.args.args or
                                     x.func.node.args.args[0].arg not in x.vars):
                x = x.parent
            if x is None:
                raise Unsupported('super')
            first = x.func.node.args.args[0].arg
            return SuperX(x.func.cls, x.vars[first])
        if isinstance(e.func, ast.Name) and e.func.id == 'globals' and not e.args:
            return env_globals(env)
        f = self.ev(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.to_seq(self.ev(a.value, env))
                if not s.concrete:
                    args.append(StarArgs(s))
                    continue
                args += s.items()
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, VDict):
                    if not v.concrete:
                        raise Unsupported('** of a symbolic dictionary')
                    v = dict(p.value for p in v.parts)
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    bytes_as_text = False   # bytes are texts of characters below 256
    merge_bools = False     # evaluate "and" and "or" to one formula rather than by cases, where nothing else happens

    def ev_BoolOp(self, e, env):
        if self.merge_bools:
            def run():
                try:
                    return self.boolop(e, env)
                except Raised:
                    return None
            out = self.ctx.sub(run, [])
            if len(out) == 1:
                pass
            elif all(isinstance(v, (bool, SBool)) and not eff for _, v, eff in out):
                return self.wrap_bool(z3.Or([z3.And([c for c, d in cs if d] + [v.z if isinstance(v, SBool) else z3.BoolVal(v)])
                                             for cs, v, _ in out]))
        return self.boolop(e, env)

    def boolop(self, e, env):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return False if isinstance(v, SBool) else v
            if isinstance(e.op, ast.Or) and t:
                return True if isinstance(v, SBool) else v
        return v

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return self.not_(v)
        if isinstance(e.op, ast.USub):
            return SInt(-v.z) if isinstance(v, SInt) else -v
        if is_sym(v):
            raise Unsupported('unary operator')
        return {ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v)

    def ev_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ev_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            res = self.compare(op, left, right)
            if i < len(e.ops) - 1 and not self.truth(res):
                return False
            left = right
        return res

    def ev_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        from .builtin import binop
        return binop(self, op, a, b)

    def ev_Lambda(self, e, env):
        return IFunc(e, env_globals(env), env, '<lambda>', env.func.qualname + '.<locals>.<lambda>', env.func.module,
                     env.func.cls, [self.ev(d, env) for d in e.args.defaults])

    def ev_Tuple(self, e, env):
        l = self.ev_items(e.elts, env)
        if l.concrete:
            return tuple(l.items())
        l.kind = 'tuple'
        return l

    def ev_List(self, e, env):
        return self.ev_items(e.elts, env)

    def ev_Set(self, e, env):
        return VSet(self.ev_items(e.elts, env).parts, epoch=self.ctx.epoch)

    def ev_items(self, elts, env):
        r = VList(epoch=self.ctx.epoch)
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.to_seq(self.ev(x.value, env))
                r.parts += s.parts
                r.unordered |= s.unordered
            else:
                r.parts.append(one(self.ev(x, env)))
        return r

    def ev_Dict(self, e, env):
        d = VDict(epoch=self.ctx.epoch)
        for k, v in zip(e.keys, e.values):
            if k is None:
                s = self.ev(v, env)
                if isinstance(s, dict):
                    s = VDict([one(x) for x in s.items()])
                if not isinstance(s, VDict):
                    raise Unsupported('** in a dictionary')
                for p in s.parts:
                    if is_one(p):
                        self.dict_set(d, *p.value)
                    else:
                        d.parts.append(p)
            else:
                self.dict_set(d, self.ev(k, env), self.ev(v, env))
        return d

    def ev_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            elif v.format_spec is None and v.conversion in (-1, 115):
                from .builtin import to_str
                parts.append(to_str(self, self.ev(v.value, env)))
            else:
                raise Unsupported('format')
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        zs = [self.as_sym(p).z for p in parts if not (isinstance(p, str) and not p)]
        return SStr(z3.Concat(*zs) if len(zs) > 1 else zs[0])

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, env) for x in (s.lower, s.upper, s.step)])
        return self.ev(s, env)

    def ev_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.ev_index(e.slice, env))

    def getitem(self, c, i):
        from .builtin import getitem
        return getitem(self, c, i)

    def ev_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        self.append(fenv(env).yields, v)
        return None

    def ev_YieldFrom(self, e, env):
        self.extend(fenv(env).yields, self.ev(e.value, env))
        return None

    def ev_ListComp(self, e, env):
        from .loops import comprehension
        return comprehension(self, e.generators, e.elt, env)

    def ev_GeneratorExp(self, e, env):
        return self.ev_ListComp(e, env)

    def ev_SetComp(self, e, env):
        l = self.ev_ListComp(e, env)
        return VSet(l.parts, epoch=self.ctx.epoch)

    def ev_DictComp(self, e, env):
        from .loops import comprehension
        l = comprehension(self, e.generators, ast.Tuple([e.key, e.value], ast.Load()), env)
        d = VDict(epoch=self.ctx.epoch)
        if l.concrete:
            for k, v in l.items():
                self.dict_set(d, k, v)
        else:
            d.parts = l.parts
            d.may_repeat = True
        return d


class StarArgs:
    def __init__(self, seq):
        self.seq = seq


def fenv(env):
    while env.yields is None:
        env = env.parent
    return env


def env_globals(env):
    while env.func is None:
        env = env.parent
    return env.func.globals


@functools.lru_cache(None)
def is_generator(node):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(c):
                return True
        return False
    return walk(node)


def to_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(t.value, t.slice, ast.Load())
    raise Unsupported('augmented assignment')
