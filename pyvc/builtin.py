"""Built in functions, operators and methods on symbolic values."""
import ast
import builtins
import itertools
import operator
import re

import z3

from .sym import (Unsupported, Infeasible, Raised, ExcVal, Sym, SInt, SBool, SStr, SKey, SRef, Poison, Part, one, is_one,
                  VList, VSet, VDict, HObj, VIter, T, ObjType, Ref, conj, forall, exists, z_subst, v_subst, rename, indexed)
from .interp import IFunc, Bound, Builtin, Stub, StarArgs, is_sym, in_repo

FUNCS = {}


def fn(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


def zi(v):
    if isinstance(v, SInt):
        return v.z
    if isinstance(v, SBool):
        return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(v))


def mkint(z):
    z = z3.simplify(z)
    return z.as_long() if z3.is_int_value(z) else SInt(z)


def mkstr(z):
    z = z3.simplify(z)
    return z.as_string() if z3.is_string_value(z) and '\\u' not in z.as_string() else SStr(z)


def numeric(v):
    return isinstance(v, (SInt, SBool, int))


def rep(c, n):
    """the character c repeated n times"""
    return z3.Function('repeat.%s' % c, z3.IntSort(), z3.StringSort())(n)


# ------------------------------------------------------------------ operators

PY = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
      ast.Mod: operator.mod, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
      ast.Div: operator.truediv, ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
DUNDER = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.BitOr: '__or__', ast.BitAnd: '__and__',
          ast.Mod: '__mod__', ast.FloorDiv: '__floordiv__', ast.Div: '__truediv__'}


def positive(it, z):
    """is the divisor positive on this path"""
    if z3.is_int_value(z):
        return z.as_long() > 0
    if not it.ctx.feasible(z <= 0):
        return True
    s = z3.Solver()
    s.set('timeout', 3000)
    for f in it.ctx.axioms + it.ctx.pc:
        s.add(f)
    return s.check(z <= 0) == z3.unsat


def binop(it, op, a, b):
    t = type(op)
    for x in (a, b):
        if isinstance(x, Poison):
            raise Unsupported(x.why)
    if isinstance(a, (SRef, HObj)) and t in DUNDER and it.has_method(a, DUNDER[t]):
        return it.call(it.getattr(a, DUNDER[t]), [b], {})
    if not is_sym(a) and not is_sym(b):
        try:
            return PY[t](a, b)
        except Exception as e:
            raise Raised(ExcVal(type(e), e.args, e))
    if t is ast.Mod and isinstance(a, str):
        return percent(it, a, b)
    if numeric(a) and numeric(b):
        x, y = zi(a), zi(b)
        if t is ast.Add:
            return mkint(x + y)
        if t is ast.Sub:
            return mkint(x - y)
        if t is ast.Mult:
            return mkint(x * y)
        if t in (ast.FloorDiv, ast.Mod):
            if not positive(it, y):
                raise Unsupported('division by a number which may not be positive')
            return mkint(x / y if t is ast.FloorDiv else x % y)
        if t is ast.Pow:
            it.ctx.taint('power')
            return SInt(z3.Function('pow', z3.IntSort(), z3.IntSort(), z3.IntSort())(x, y))
        if t in (ast.BitOr, ast.BitAnd) and isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            p, q = it.truth_z(a), it.truth_z(b)
            p, q = [z3.BoolVal(v) if isinstance(v, bool) else v for v in (p, q)]
            return it.wrap_bool(z3.Or(p, q) if t is ast.BitOr else z3.And(p, q))
        raise Unsupported('operator on numbers')
    if t is ast.Add and (isinstance(a, SKey) and isinstance(b, (SKey, str)) or isinstance(b, SKey) and isinstance(a, str)):
        return concat(it, [a, b])
    if it.bytes_as_text:
        a, b = [x.decode('latin1') if isinstance(x, bytes) else x for x in (a, b)]
    if t is ast.Add and isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        if isinstance(a, str) and not a:
            return b
        if isinstance(b, str) and not b:
            return a
        return SStr(z3.Concat(it.as_sym(a).z, it.as_sym(b).z))
    if t is ast.Add:
        x, y = it.listy(a), it.listy(b)
        if x is not None and y is not None:
            it.touch(a), it.touch(b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if x.kind != y.kind:
                raise Raised(ExcVal(TypeError, ('concatenate',)))
            r = VList(x.parts + [rename(it.ctx, p) for p in y.parts], kind=x.kind, epoch=it.ctx.epoch)
            r.unordered = x.unordered or y.unordered
            return r
    if t is ast.Mult:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, str) and len(x) == 1 and isinstance(y, SInt):
                n = z3.simplify(y.z)
                r = rep(x, n)
                it.ctx.assume(z3.Length(r) == z3.If(n < 0, z3.IntVal(0), n))
                return SStr(r)
            l = it.listy(x)
            if l is not None and l.concrete and isinstance(y, int):
                return VList([p for _ in range(y) for p in l.parts], kind=l.kind, epoch=it.ctx.epoch)
            if l is not None and l.concrete and len(l.parts) == 1 and isinstance(y, SInt):
                n = z3.If(y.z < 0, z3.IntVal(0), y.z)
                v = l.parts[0].value
                return VList([indexed(it.ctx, n, lambda i: v)], kind=l.kind, epoch=it.ctx.epoch)
    sets = (VSet, set, frozenset)
    if isinstance(a, sets) and isinstance(b, sets):
        x, y = it.to_set(a), it.to_set(b)
        if t is ast.BitOr:
            return VSet(x.parts + [rename(it.ctx, p) for p in y.parts], epoch=it.ctx.epoch)
        if t in (ast.Sub, ast.BitAnd):
            out = []
            for p in x.parts:
                m = it.member(y, p.value)
                out.append(Part(p.vars, z3.And(p.guard, z3.Not(m) if t is ast.Sub else m), p.value))
            return VSet(out, epoch=it.ctx.epoch)
    raise Unsupported('operator %s on %s, %s' % (t.__name__, type(a).__name__, type(b).__name__))


# ------------------------------------------------------------------ texts

def to_str(it, v):
    if isinstance(v, SStr):
        return v
    if isinstance(v, (SRef, HObj)):
        if it.has_method(v, '__str__'):
            return it.call(it.getattr(v, '__str__'), [], {})
        if isinstance(v, HObj) and v.cls.__str__ is object.__str__ and v.cls.__repr__ is object.__repr__:
            it.ctx.taint('text of an object without __str__', 'objtext')
            return SStr(it.ctx.fresh('objtext', z3.StringSort()))
        raise Unsupported('str of %r' % (v,))
    if isinstance(v, SInt):
        if v.z.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
            return SStr(z3.IntToStr(v.z))
        return SStr(z3.If(v.z >= 0, z3.IntToStr(v.z), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v.z))))
    if isinstance(v, SBool):
        return 'True' if it.truth(v) else 'False'
    if is_sym(v):
        c = it.concretize(v)
        if c is NotImplemented:
            return opaque_text(it, 'str')
        v = c
    return str(v)


def opaque_text(it, why):
    z = it.ctx.fresh('text', z3.StringSort())
    it.ctx.taint('text of a composite value', z.decl().name())
    return SStr(z)


def concat(it, parts):
    parts = [p for p in parts if not (isinstance(p, str) and not p)]
    if any(isinstance(p, SKey) for p in parts):
        if len(parts) == 1:
            return parts[0]
        return SKey(it.opaque('text', [one(p) for p in parts], z3.RealSort()), 'text')
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    zs = [it.as_sym(p).z for p in parts]
    return SStr(z3.Concat(*zs) if len(zs) > 1 else zs[0])


def percent(it, fmt, args):
    args = args if isinstance(args, tuple) else (args,)
    toks = re.split(r'(%[sdr%])', fmt)
    if '%' in ''.join(t for t in toks if not re.fullmatch(r'%[sdr%]', t)):
        return opaque_text(it, 'format')
    out, args = [], list(args)
    for t in toks:
        if t == '%%':
            out.append('%')
        elif t in ('%s', '%d'):
            if not args:
                raise Raised(ExcVal(TypeError, ('format',)))
            out.append(to_str(it, args.pop(0)))
        elif t == '%r':
            return opaque_text(it, 'repr')
        else:
            out.append(t)
    if args:
        raise Raised(ExcVal(TypeError, ('format',)))
    return concat(it, out)


def format_(it, fmt, args, kwargs):
    if not re.fullmatch(r'([^{}]|\{\}|\{[a-z_A-Z0-9]+\}|\{\{|\}\})*', fmt):
        return opaque_text(it, 'format')
    out, args = [], list(args)
    auto = 0
    for t in re.findall(r'\{\{|\}\}|\{[a-z_A-Z0-9]*\}|[^{}]+', fmt):
        if t in ('{{', '}}'):
            out.append(t[0])
        elif t.startswith('{'):
            n = t[1:-1]
            if n == '':
                v = args[auto]
                auto += 1
            elif n.isdigit():
                v = args[int(n)]
            else:
                if n not in kwargs:
                    raise Raised(ExcVal(KeyError, (n,)))
                v = kwargs[n]
            out.append(to_str(it, v))
        else:
            out.append(t)
    return concat(it, out)


def utf8(z):
    """the bytes of a text, as a text: the same for ascii characters, one for the other of each part of a concatenation"""
    k = z.decl().kind()
    if k == z3.Z3_OP_SEQ_CONCAT:
        return z3.Concat([utf8(x) for x in z.children()])
    if z3.is_string_value(z) and z.as_string().isascii() and '\\u' not in z.as_string() or k == z3.Z3_OP_INT_TO_STR:
        return z
    return z3.Function('utf8', z3.StringSort(), z3.StringSort())(z)


def join(it, sep, seq):
    s = it.to_seq(seq)
    if it.bytes_as_text and isinstance(sep, bytes):
        sep = sep.decode('latin1')
    if s.concrete:
        out = []
        for i, v in enumerate(s.items()):
            if i and sep != '':
                out.append(sep)
            if not isinstance(v, (str, SStr, bytes, SKey)):
                raise Raised(ExcVal(TypeError, ('join',)))
            out.append(v)
        if isinstance(sep, bytes):
            if all(isinstance(x, bytes) for x in out):
                return b''.join(out)
            return SKey(it.opaque('bytes', [one(x) for x in s.items()], z3.RealSort()), 'bytes')
        return concat(it, out)
    if isinstance(sep, bytes):
        return SKey(it.opaque('bytes-join', s.parts, z3.RealSort()), 'bytes')
    if s.unordered:
        raise Unsupported('join of a list of unknown order')
    if any(isinstance(p.value, SKey) for p in s.parts):
        return SKey(it.opaque('join %r' % sep, s.parts, z3.RealSort()), 'text')
    if isinstance(sep, SStr):
        raise Unsupported('join')
    return SStr(it.opaque('join %r' % sep, s.parts, z3.StringSort()))


def str_method(it, s, name, args, kwargs):
    if name == 'join':
        return join(it, s, args[0])
    if name == 'format':
        return format_(it, s, args, kwargs) if isinstance(s, str) else opaque_text(it, 'format')
    if isinstance(s, (str, bytes)) and not any(is_sym(a) for a in args):
        try:
            r = getattr(s, name)(*args, **kwargs)
        except Exception as e:
            raise Raised(ExcVal(type(e), e.args, e))
        return VList([one(x) for x in r], epoch=it.ctx.epoch) if isinstance(r, list) else r
    z = it.as_sym(s).z
    a = [it.as_sym(x) for x in args]
    if name == 'startswith' and isinstance(a[0], SStr):
        return it.wrap_bool(z3.PrefixOf(a[0].z, z))
    if name == 'endswith' and isinstance(a[0], SStr):
        return it.wrap_bool(z3.SuffixOf(a[0].z, z))
    if name == '__hash__':
        return SInt(z3.Function('hash.str', z3.StringSort(), z3.IntSort())(z))
    if name == 'replace' and all(isinstance(x, SStr) for x in a) and len(a) == 2:
        f = z3.SeqRef(z3.Z3_mk_seq_replace_all(z.ctx_ref(), z.as_ast(), a[0].z.as_ast(), a[1].z.as_ast()), z.ctx)
        return SStr(f)
    if name == 'encode' and it.bytes_as_text:
        return SStr(utf8(z3.simplify(z)))
    if name in ('encode', 'hexdigest'):
        return SKey(z3.Function('encode', z3.StringSort(), z3.RealSort())(z), 'bytes')
    if name in ('strip', 'lower', 'upper', 'lstrip', 'rstrip', 'title') and not args:
        return SStr(z3.Function('str.' + name, z3.StringSort(), z3.StringSort())(z))
    if name == 'rstrip' and len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
        c = z3.StringVal(args[0])
        k = z3.simplify(z)
        while k.decl().kind() == z3.Z3_OP_SEQ_CONCAT and k.arg(k.num_args() - 1).eq(c):
            l = [k.arg(i) for i in range(k.num_args() - 1)]
            k = l[0] if len(l) == 1 else z3.Concat(l)
        if not it.ctx.feasible(z3.SuffixOf(c, k)):
            return SStr(k)
        it.ctx.taint('rstrip')
        return SStr(z3.Function('str.rstrip.' + args[0], z3.StringSort(), z3.StringSort())(z))
    if name in ('removesuffix', 'removeprefix') and len(args) == 1:
        c, n = a[0].z, z3.Length(a[0].z)
        if name == 'removesuffix':
            return SStr(z3.If(z3.SuffixOf(c, z), z3.SubString(z, z3.IntVal(0), z3.Length(z) - n), z))
        return SStr(z3.If(z3.PrefixOf(c, z), z3.SubString(z, n, z3.Length(z) - n), z))
    raise Unsupported('method %s of a symbolic text' % name)


# ------------------------------------------------------------------ subscripts

def getitem(it, c, i):
    if isinstance(c, Poison) or isinstance(i, Poison):
        raise Unsupported('poison')
    if isinstance(c, SRef) and c.typ.fields and isinstance(i, int):
        return it.ref_attr(c, c.typ.fields[i])
    if isinstance(c, (SRef, HObj)):
        if it.has_method(c, '__getitem__'):
            return it.call(it.getattr(c, '__getitem__'), [i], {})
        raise Unsupported('subscript of %r' % (c,))
    l = it.listy(c)
    if l is not None:
        it.touch(c)
        if isinstance(i, slice):
            r = it.slice(l, i.start, i.stop, i.step)
            return tuple(r.items()) if isinstance(c, tuple) and r.concrete else r
        return it.index(l, i)
    if isinstance(c, VDict):
        return dict_get(it, c, i, missing=True)
    if isinstance(c, dict) and (is_sym(i) or is_sym(c)):
        if len(c) > 60:
            raise Unsupported('symbolic key in a big dictionary')
        for k, v in c.items():
            if it.truth(it.wrap_bool(it.key_eq(k, i))):
                return v
        raise Raised(ExcVal(KeyError, (i,)))
    if isinstance(c, (SStr, str)) and (is_sym(c) or is_sym(i)):
        z = it.as_sym(c).z
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('slice of text')
            n = z3.Length(z)
            def norm(x, d):
                if x is None:
                    return d
                x = zi(x)
                return z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(x > n, n, x))
            a, b = norm(i.start, z3.IntVal(0)), norm(i.stop, n)
            return SStr(z3.simplify(z3.SubString(z, a, z3.If(b < a, z3.IntVal(0), b - a))))
        k = zi(i)
        if isinstance(i, int) and i < 0:
            k = z3.Length(z) + k
        if not it.ctx.branch(z3.And(k >= 0, k < z3.Length(z))):
            raise Raised(ExcVal(IndexError, ('string index',)))
        return SStr(z3.SubString(z, k, z3.IntVal(1)))
    if isinstance(i, slice) and any(is_sym(x) for x in (i.start, i.stop, i.step)):
        raise Unsupported('symbolic slice')
    if is_sym(c) or is_sym(i):
        raise Unsupported('subscript of %s' % type(c).__name__)
    try:
        return c[i]
    except Exception as e:
        raise Raised(ExcVal(type(e), e.args, e))


def dict_get(it, c, k, missing=False, default=None):
    it.touch(c)
    ctx = it.ctx
    for p in reversed(c.parts):
        if is_one(p):
            if it.truth(it.wrap_bool(it.key_eq(p.value[0], k))):
                return p.value[1]
        else:
            q = rename(ctx, p)
            hit = z3.And(q.guard, it.key_eq(q.value[0], k))
            if not q.vars:
                if ctx.branch(hit):
                    return q.value[1]
                continue
            if ctx.branch(exists(q.vars, hit)):
                if getattr(c, 'may_repeat', False):
                    a, b = rename(ctx, p), rename(ctx, p)
                    inj = forall(a.vars + b.vars, z3.And(a.guard, b.guard, it.key_eq(a.value[0], b.value[0])),
                                 conj([x == y for x, y in zip(a.vars, b.vars)]))
                    if ctx.feasible(z3.Not(inj)):
                        ctx.taint('dictionary with repeated keys')
                w = [ctx.fresh('w', v.sort()) for v in q.vars]
                pairs = list(zip(q.vars, w))
                ctx.assume(z_subst(hit, pairs))
                v = v_subst(q.value[1], pairs)
                it.touch_deep(v)
                return v
    if c.default is not None:
        v = it.call(c.default, [], {})
        it.setitem(c, k, v)
        return v
    if missing:
        raise Raised(ExcVal(KeyError, (k,)))
    return default


# ------------------------------------------------------------------ methods of containers

def call_method(it, o, name, args, kwargs):
    if isinstance(o, SKey) and name == '__hash__':
        return SInt(z3.Function('hash.key', z3.RealSort(), z3.IntSort())(o.z))
    if isinstance(o, SInt) and name == '__hash__':
        return SInt(z3.Function('hash.int', z3.IntSort(), z3.IntSort())(o.z))
    if isinstance(o, (SStr, str, bytes)):
        return str_method(it, o, name, args, kwargs)
    if isinstance(o, VIter):
        if name == '__next__':
            return next_(it, [o], {})
        if name == '__iter__':
            return o
    if isinstance(o, (list, tuple, dict, set, frozenset)) and not is_sym(o) and not any(is_sym(a) for a in args) \
            and name in ('get', 'items', 'keys', 'values', 'index', 'count', 'copy', '__iter__', 'issubset', 'union',
                         'intersection', 'difference', 'issuperset', '__contains__', '__getitem__', '__len__', 'isdisjoint'):
        try:
            r = getattr(o, name)(*args, **kwargs)
        except Exception as e:
            raise Raised(ExcVal(type(e), e.args, e))
        if name in ('items', 'keys', 'values', '__iter__'):
            return VList([one(x) for x in r], epoch=it.ctx.epoch)
        if name == 'copy' and isinstance(o, list):
            return VList([one(x) for x in r], epoch=it.ctx.epoch)
        return r
    if isinstance(o, tuple):
        o = it.listy(o)
    if isinstance(o, list):
        if name in ('append', 'extend', 'sort', 'insert', 'pop', 'remove', 'clear', 'reverse'):
            raise Unsupported('mutation of a list of the program')
        o = it.listy(o)
    if isinstance(o, dict):
        if name in ('update', 'setdefault', 'pop', 'clear', '__setitem__'):
            raise Unsupported('mutation of a dictionary of the program')
        o = VDict([one(x) for x in o.items()], epoch=-1)
    if isinstance(o, (set, frozenset)):
        o = VSet([one(x) for x in o], epoch=-1)
    if isinstance(o, VList):
        return list_method(it, o, name, args, kwargs)
    if isinstance(o, VSet):
        return set_method(it, o, name, args, kwargs)
    if isinstance(o, VDict):
        return dict_method(it, o, name, args, kwargs)
    return it.native(getattr(o, name), args, kwargs)


def list_method(it, l, name, args, kwargs):
    if name in ('append', 'extend', 'sort', 'insert', 'pop', 'reverse', 'remove', 'clear'):
        l.writable()
    if name == 'append':
        return it.append(l, args[0])
    if name == 'extend':
        return it.extend(l, args[0])
    if name == '__iter__':
        it.touch(l)
        return VIter(l, 0, it.ctx.epoch)
    if name == '__len__':
        return len_(it, [l], {})
    if name == 'sort':
        it.touch(l)
        if l.frozen:
            raise Unsupported('sort of a list of an immutable object')
        if l.epoch < it.ctx.epoch:
            raise Unsupported('sort in a loop body')
        r = it.sort(l, kwargs.get('key'), kwargs.get('reverse', False))
        l.parts, l.unordered, l.bag = r.parts, False, r.bag
        l.sorted_by, l.sorted_from = kwargs.get('key'), getattr(r, 'sorted_from', None)
        return None
    if name == 'copy':
        return it.slice(l, None, None, None)
    if name == 'insert' and l.concrete and isinstance(args[0], int) and l.epoch >= it.ctx.epoch and not l.frozen:
        l.parts.insert(args[0], one(args[1]))
        return None
    if name == 'pop' and l.concrete and l.epoch >= it.ctx.epoch and not l.frozen:
        i = args[0] if args else -1
        if not l.parts:
            raise Raised(ExcVal(IndexError, ('pop',)))
        return l.parts.pop(i).value
    if name == 'reverse' and l.concrete and l.epoch >= it.ctx.epoch:
        l.parts.reverse()
        return None
    if name == 'index' and l.concrete:
        for i, v in enumerate(l.items()):
            if it.truth(it.eq(v, args[0])):
                return i
        raise Raised(ExcVal(ValueError, ('index',)))
    if name == 'count' and l.concrete:
        return sum(1 for v in l.items() if it.truth(it.eq(v, args[0])))
    raise Unsupported('list.%s' % name)


def set_method(it, s, name, args, kwargs):
    if name in ('add', 'update'):
        s.writable()
    it.touch(s) if name not in ('add', 'update') else None
    if name == 'add':
        if s.epoch < it.ctx.epoch:
            it.ctx.effects.append((s, 'append', args[0]))
        else:
            s.parts.append(one(args[0]))
        return None
    if name == 'update':
        for a in args:
            it.set_update(s, a)
        return None
    if name == 'issubset':
        return it.wrap_bool(it.subset(s, it.to_set(args[0])))
    if name == 'issuperset':
        return it.wrap_bool(it.subset(it.to_set(args[0]), s))
    if name in ('union', 'difference', 'intersection'):
        op = {'union': ast.BitOr, 'difference': ast.Sub, 'intersection': ast.BitAnd}[name]()
        r = s
        for a in args:
            r = binop(it, op, r, it.to_set(a))
        return r
    if name == 'isdisjoint':
        o = it.to_set(args[0])
        r = []
        for p in s.parts:
            q = rename(it.ctx, p)
            r.append(forall(q.vars, q.guard, z3.Not(it.member(o, q.value))))
        return it.wrap_bool(conj(r))
    if name == 'copy':
        return VSet(s.parts, epoch=it.ctx.epoch)
    if name == '__iter__':
        return VIter(it.to_seq(s), 0, it.ctx.epoch)
    if name == '__len__':
        return it.length(s)
    raise Unsupported('set.%s' % name)


def dict_method(it, d, name, args, kwargs):
    if name in ('setdefault', 'update', 'pop'):
        d.writable()
    it.touch(d) if name not in ('update',) else None
    def mk(f):
        if it.repeated(d):
            raise Unsupported('values of a dictionary with repeated keys')
        return VList([Part(p.vars, p.guard, f(p.value), p.n) for p in d.parts], epoch=it.ctx.epoch)
    if name == 'items':
        return mk(lambda kv: (kv[0], kv[1]))
    if name == 'keys' or name == '__iter__':
        return it.to_seq(d)
    if name == 'values':
        return mk(lambda kv: kv[1])
    if name == 'get':
        return dict_get(it, d, args[0], default=args[1] if len(args) > 1 else None)
    if name == 'setdefault':
        if d.epoch < it.ctx.epoch:
            raise Unsupported('setdefault in a loop body')
        m = object()
        v = dict_get(it, d, args[0], default=m)
        if v is m:
            v = args[1] if len(args) > 1 else None
            it.dict_set(d, args[0], v)
        return v
    if name == 'update' and d.epoch >= it.ctx.epoch:
        for o in args:
            o = VDict([one(x) for x in o.items()]) if isinstance(o, dict) else o
            for p in o.parts:
                if not is_one(p):
                    raise Unsupported('update')
                it.dict_set(d, *p.value)
        for k, v in kwargs.items():
            it.dict_set(d, k, v)
        return None
    if name == '__contains__':
        return it.contains(d, args[0])
    if name == 'copy':
        return VDict(d.parts, epoch=it.ctx.epoch, default=d.default)
    if name == 'pop' and d.concrete and d.epoch >= it.ctx.epoch:
        for i, p in enumerate(d.parts):
            if it.truth(it.wrap_bool(it.key_eq(p.value[0], args[0]))):
                del d.parts[i]
                return p.value[1]
        if len(args) > 1:
            return args[1]
        raise Raised(ExcVal(KeyError, (args[0],)))
    raise Unsupported('dict.%s' % name)


def call_descriptor(it, obj, g, args, kwargs):
    """slot methods inherited from object"""
    n = g.__name__
    if n == '__init__':
        return None
    if n == '__new__':
        return HObj(obj if isinstance(obj, type) else args[0], epoch=it.ctx.epoch)
    if n == '__eq__':
        return obj is args[0]
    if n == '__ne__':
        return it.not_(it.eq(obj, args[0]))
    if n == '__hash__':
        raise Unsupported('hash of an object')
    raise Unsupported('method %s of object' % n)


# ------------------------------------------------------------------ functions

@fn(len)
def len_(it, a, k):
    v = a[0]
    if isinstance(v, (VList, VSet, VDict)):
        it.touch(v)
        if isinstance(v, VDict):
            if v.concrete:
                return len(v.parts)
            return it.length(VSet([Part(p.vars, p.guard, p.value[0], p.n) for p in v.parts]))
        n = it.length(v)
        n = mkint(n.z) if isinstance(n, SInt) else n
        if isinstance(n, SInt) and isinstance(v, VList):
            n.of = list(v.parts)
        return n
    if isinstance(v, SStr):
        return mkint(z3.Length(v.z))
    if isinstance(v, SRef) and v.typ.fields:
        return len(v.typ.fields)
    if isinstance(v, (SRef, HObj)):
        return it.call(it.getattr(v, '__len__'), [], {})
    if isinstance(v, (list, tuple, dict, set)):
        return len(v)
    if is_sym(v):
        raise Raised(ExcVal(TypeError, ('len',)))
    return it.native(len, a, k)


@fn(isinstance)
def isinstance_(it, a, k):
    v, c = a
    if isinstance(c, VList):
        c = tuple(c.items())
    cs = c if isinstance(c, tuple) else (c,)
    flat = []
    for x in cs:
        flat += list(x) if isinstance(x, tuple) else [x]
    if any(not isinstance(x, type) for x in flat):
        if all(hasattr(x, '__origin__') or isinstance(x, type) for x in flat):
            flat = [getattr(x, '__origin__', x) for x in flat]
        else:
            raise Unsupported('isinstance with a symbolic class')
    cs = tuple(flat)
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    if isinstance(v, SRef):
        it.facts_of(v)
        return it.wrap_bool(v.typ.is_a(v.z, cs))
    real = {SInt: int, SBool: bool, SStr: str, SKey: bytes, VSet: set, VDict: dict}.get(type(v))
    if isinstance(v, VList):
        real = tuple if v.kind == 'tuple' else list
    if isinstance(v, HObj):
        real = v.cls
    if isinstance(v, ExcVal):
        real = v.cls
    if isinstance(v, (IFunc, Bound, Stub, Builtin)):
        return False
    if isinstance(v, VIter):
        import collections.abc
        return any(x is collections.abc.Iterator or x is object for x in cs)
    if real is not None:
        return issubclass(real, cs)
    return isinstance(v, cs)


@fn(issubclass)
def issubclass_(it, a, k):
    return it.native(issubclass, a, k)


@fn(type)
def type_(it, a, k):
    if len(a) != 1:
        raise Unsupported('type')
    return it.getattr(a[0], '__class__') if isinstance(a[0], (SRef, HObj, ExcVal)) else \
        {SInt: int, SBool: bool, SStr: str, VList: list, VSet: set, VDict: dict}.get(type(a[0]), type(a[0]))


@fn(str)
def str_(it, a, k):
    return to_str(it, a[0]) if a else ''


@fn(repr)
def repr_(it, a, k):
    return repr(a[0]) if not is_sym(a[0]) else opaque_text(it, 'repr')


@fn(int)
def int_(it, a, k):
    if isinstance(a[0], SInt):
        return a[0]
    if isinstance(a[0], SBool):
        return SInt(zi(a[0]))
    if len(a) == 1 and isinstance(a[0], SStr):
        # a text of decimal digits; signs, blanks, underscores and digits of other scripts are out of reach
        z = a[0].z
        digits = z3.InRe(z, z3.Plus(z3.Range('0', '9')))
        if it.ctx.branch(digits):
            r = it.ctx.fresh('int', z3.IntSort())
            it.ctx.assume(r == z3.StrToInt(z))
            it.ctx.assume(r >= 0)
            return SInt(r)
        raise Unsupported('int of a text which is not made of digits')
    return it.native(int, a, k)


@fn(bool)
def bool_(it, a, k):
    if not a:
        return False
    z = it.truth_z(a[0])
    return z if isinstance(z, bool) else it.wrap_bool(z)


@fn(list)
def list_(it, a, k):
    if not a:
        return VList(epoch=it.ctx.epoch)
    s = it.to_seq(a[0])
    r = VList(s.parts, epoch=it.ctx.epoch)
    r.unordered, r.bag = s.unordered, s.bag
    for x in ('at', 'sorted_by', 'perm'):
        if hasattr(s, x):
            setattr(r, x, getattr(s, x))
    return r


@fn(tuple)
def tuple_(it, a, k):
    if not a:
        return ()
    s = it.to_seq(a[0])
    if s.concrete:
        return tuple(s.items())
    r = list_(it, a, k)
    r.kind = 'tuple'
    return r


@fn(set, frozenset)
def set_(it, a, k):
    return VSet(it.to_set(a[0]).parts if a else [], epoch=it.ctx.epoch)


@fn(dict)
def dict_(it, a, k):
    d = VDict(epoch=it.ctx.epoch)
    if a:
        if isinstance(a[0], VDict):
            d.parts = list(a[0].parts)
        elif isinstance(a[0], dict):
            d.parts = [one(x) for x in a[0].items()]
        else:
            s = it.to_seq(a[0])
            for p in s.parts:
                if is_one(p):
                    kv = it.to_seq(p.value).items()
                    it.dict_set(d, kv[0], kv[1])
                elif isinstance(p.value, tuple) and len(p.value) == 2:
                    d.parts.append(p)
                    d.may_repeat = True
                else:
                    raise Unsupported('dict of a symbolic sequence')
    for n, v in k.items():
        it.dict_set(d, n, v)
    return d


@fn(sorted)
def sorted_(it, a, k):
    return it.sort(it.to_seq(a[0]), k.get('key'), k.get('reverse', False))


@fn(reversed)
def reversed_(it, a, k):
    s = it.to_seq(a[0])
    if s.concrete:
        return VList(s.parts[::-1], epoch=it.ctx.epoch)
    p = it.single(s)
    if p is None:
        raise Unsupported('reversed')
    return VList([indexed(it.ctx, p.n, lambda i: v_subst(p.value, [(p.vars[0], p.n - 1 - i)]))], epoch=it.ctx.epoch)


@fn(enumerate)
def enumerate_(it, a, k):
    s = it.to_seq(a[0])
    start = a[1] if len(a) > 1 else k.get('start', 0)
    if s.concrete and isinstance(start, int):
        return VList([one((i + start, v)) for i, v in enumerate(s.items())], epoch=it.ctx.epoch)
    p = it.single(s)
    if p is None:
        return enumerate_some(it, s, start)
    return VList([indexed(it.ctx, p.n, lambda i: (SInt(z3.simplify(i + zi(start))), v_subst(p.value, [(p.vars[0], i)])))],
                 epoch=it.ctx.epoch)


def enumerate_some(it, s, start):
    """the elements kept of a list: their positions are in the same order, those of a part after the ones of the parts before"""
    ctx = it.ctx
    if s.unordered or not isinstance(start, int):
        raise Unsupported('enumerate')
    parts, first = [], z3.IntVal(0)
    for p in s.parts:
        if not p.vars:
            parts.append(Part(p.vars, p.guard, (SInt(z3.simplify(first + start)), p.value), p.n))
            first = z3.simplify(first + z3.If(p.guard, 1, 0))
            continue
        if len(p.vars) != 1:
            raise Unsupported('enumerate')
        q = rename(ctx, p)
        i, j = q.vars[0], z3.Int(ctx.name('j'))
        name = ctx.name('position')
        f = z3.Function(name, *([b.sort() for b in ctx.bound] + [z3.IntSort(), z3.IntSort()]))
        pos = lambda x: f(*(list(ctx.bound) + [x]))
        n = ctx.fresh('kept', z3.IntSort())
        ctx.assume(n >= 0)
        gj = z3.substitute(q.guard, (i, j))
        ctx.assume(z3.ForAll([i], z3.Implies(q.guard, z3.And(pos(i) >= 0, pos(i) < n))))
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(q.guard, gj, i < j), pos(i) < pos(j))))
        ctx.taint('enumerate', name)
        ctx.taint('enumerate', n.decl().name())
        parts.append(Part(q.vars, q.guard, (SInt(z3.simplify(first + pos(i) + start)), q.value), q.n))
        first = z3.simplify(first + n)
    return VList(parts, epoch=ctx.epoch)


@fn(zip)
def zip_(it, a, k):
    if len(a) == 1 and isinstance(a[0], StarArgs):
        return unzip(it, a[0].seq)
    ss = [it.to_seq(x) for x in a]
    if all(s.concrete for s in ss):
        return VList([one(t) for t in zip(*[s.items() for s in ss])], epoch=it.ctx.epoch)
    ps = [it.single(s) for s in ss]
    if any(p is None for p in ps):
        raise Unsupported('zip')
    n = ps[0].n
    for p in ps[1:]:
        n = z3.If(p.n < n, p.n, n)
    return VList([indexed(it.ctx, z3.simplify(n), lambda i: tuple(v_subst(p.value, [(p.vars[0], i)]) for p in ps))],
                 epoch=it.ctx.epoch)


def unzip(it, s):
    """zip(*rows): the columns of rows of one known width"""
    ne = it.nonempty(s)
    if not (ne if isinstance(ne, bool) else it.ctx.branch(ne)):
        return VList([], epoch=it.ctx.epoch)
    def cells(v):
        if isinstance(v, VList) and v.concrete:
            return v.items()
        if isinstance(v, SRef) and getattr(v.typ, 'fields', None):
            return [it.getattr(v, f) for f in v.typ.fields]
        if isinstance(v, tuple):
            return list(v)
        raise Unsupported('zip(*symbolic)')
    rows = [cells(p.value) for p in s.parts]
    if len({len(r) for r in rows}) != 1:
        raise Unsupported('zip(*rows) of several widths')
    out = []
    for i in range(len(rows[0])):
        c = VList([rename(it.ctx, Part(p.vars, p.guard, r[i], p.n)) for p, r in zip(s.parts, rows)], kind='tuple', epoch=it.ctx.epoch)
        c.unordered = s.unordered
        out.append(one(c))
    return VList(out, epoch=it.ctx.epoch)


def map_parts(it, seq, f):
    """[f(x) for x in seq] with f on values"""
    from .loops import element, split
    out, unordered = [], seq.unordered
    for p in seq.parts:
        if is_one(p):
            out.append(one(f(p.value)))
            continue
        q = rename(it.ctx, p)
        outcomes = element(it, q, lambda: f(q.value))
        for conds, (kind, v), eff in outcomes:
            if eff:
                raise Unsupported('side effect in map')
            dec, _ = split(conds)
            if len(outcomes) == 1 and not dec:
                out.append(Part(q.vars, q.guard, v, q.n))
            else:
                out.append(Part(q.vars, conj([q.guard] + dec), v))
        unordered |= len(outcomes) > 1
    r = VList(out, epoch=it.ctx.epoch)
    r.unordered = unordered
    return r


@fn(map)
def map_(it, a, k):
    if len(a) == 2:
        return map_parts(it, it.to_seq(a[1]), lambda v: it.call(a[0], [v], {}))
    z = zip_(it, a[1:], {})
    return map_parts(it, z, lambda v: it.call(a[0], list(v), {}))


@fn(filter)
def filter_(it, a, k):
    from .loops import element, split
    f = a[0]
    test = (lambda v: it.truth(it.call(f, [v], {}))) if f is not None else it.truth
    out, seq = [], it.to_seq(a[1])
    many = False
    for p in seq.parts:
        if is_one(p):
            if test(p.value):
                out.append(p)
            continue
        q = rename(it.ctx, p)
        outcomes = element(it, q, lambda: test(q.value))
        keep = [o for o in outcomes if o[1][1]]
        many |= len(keep) > 1
        for conds, (kind, v), eff in keep:
            dec, _ = split(conds)
            out.append(Part(q.vars, q.guard, q.value, q.n) if len(outcomes) == 1 and not dec else
                       Part(q.vars, conj([q.guard] + dec), q.value))
    r = VList(out, epoch=it.ctx.epoch)
    r.unordered = seq.unordered or many
    return r


@fn(range)
def range_(it, a, k):
    if not any(is_sym(x) for x in a):
        return it.native(range, a, k)
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) > 2:
        raise Unsupported('range with a step')
    n = z3.simplify(z3.If(zi(hi) - zi(lo) < 0, z3.IntVal(0), zi(hi) - zi(lo)))
    return VList([indexed(it.ctx, n, lambda i: SInt(z3.simplify(i + zi(lo))))], epoch=it.ctx.epoch)


def quantified(it, seq, universal):
    """all / any of the truth of the elements, as a formula"""
    from .loops import element, split
    r = []
    for p in seq.parts:
        if is_one(p):
            z = it.truth_z(p.value)
            z = z3.BoolVal(z) if isinstance(z, bool) else z
            r.append(z)
            continue
        q = rename(it.ctx, p)
        if isinstance(q.value, (SBool, SInt, SStr, bool)):
            z = it.truth_z(q.value)
            z = z3.BoolVal(z) if isinstance(z, bool) else z
            r.append(forall(q.vars, q.guard, z) if universal else exists(q.vars, z3.And(q.guard, z)))
            continue
        for conds, (kind, v), eff in element(it, q, lambda: it.truth(q.value)):
            dec, _ = split(conds)
            if universal and not v:
                r.append(forall(q.vars, q.guard, z3.Not(conj(dec))))
            elif not universal and v:
                r.append(exists(q.vars, conj([q.guard] + dec)))
    if universal:
        return it.wrap_bool(conj(r))
    return it.wrap_bool(z3.Or(r) if r else z3.BoolVal(False))


@fn(all)
def all_(it, a, k):
    return quantified(it, it.to_seq(a[0]), True)


@fn(any)
def any_(it, a, k):
    return quantified(it, it.to_seq(a[0]), False)


@fn(sum)
def sum_(it, a, k):
    s = it.to_seq(a[0])
    tot = zi(a[1]) if len(a) > 1 else z3.IntVal(0)
    many = []
    for p in s.parts:
        if not numeric(p.value):
            raise Unsupported('sum of values which are not numbers')
        if is_one(p):
            tot = tot + zi(p.value)
        elif z3.is_int_value(z3.simplify(zi(p.value))):
            c = z3.simplify(zi(p.value)).as_long()
            if c:
                tot = tot + c * zi(it.length(VList([Part(p.vars, p.guard, 0, p.n)])))
        else:
            many.append(Part(p.vars, p.guard, SInt(zi(p.value)), p.n))
    if many:
        tot = tot + it.opaque('sum', many, z3.IntSort())
    return mkint(tot)


def extreme_by(it, s, key, biggest):
    """max or min of a sequence which is not empty, by a key"""
    if s.concrete:
        r = None
        for v in s.items():
            kv = it.call(key, [v], {})
            if r is None or it.truth(it.lt(r[0], kv) if biggest else it.lt(kv, r[0])):
                r = kv, v
        return r[1]
    ctx = it.ctx
    i = ctx.choose(len(s.parts)) if len(s.parts) > 1 else 0
    p = s.parts[i]
    ws = [ctx.fresh('w', x.sort()) for x in p.vars]
    sub = list(zip(p.vars, ws))
    ctx.assume(z3.substitute(p.guard, *sub) if sub else p.guard)
    val = v_subst(p.value, sub)
    it.touch_deep(val)
    kv = it.call(key, [val], {})

    def less(a, b):
        if isinstance(a, SRef) and isinstance(b, SRef) and a.typ is b.typ:
            return it.type_lt(a.typ)(a.z, b.z)
        if isinstance(a, (SInt, SKey, SStr)) and type(a) is type(b):
            return a.z < b.z
        raise Unsupported('max with a key')
    for p in s.parts:
        q = rename(ctx, p)
        out = ctx.sub(lambda: it.call(key, [q.value], {}), q.vars)
        if len(out) != 1 or out[0][2]:
            raise Unsupported('max with a key with cases')
        x = out[0][1]
        ctx.assume(forall(q.vars, q.guard, z3.Not(less(kv, x) if biggest else less(x, kv))))
    return val


def extreme(it, a, k, biggest):
    if k.get('key') is not None:
        s = it.to_seq(a[0]) if len(a) == 1 else it.listy(tuple(a))
        ne = it.nonempty(s)
        if not (ne if isinstance(ne, bool) else it.ctx.branch(ne)):
            if 'default' in k:
                return k['default']
            raise Raised(ExcVal(ValueError, ('max() arg is an empty sequence',)))
        return extreme_by(it, s, k['key'], biggest)
    s = it.to_seq(a[0]) if len(a) == 1 else it.listy(tuple(a))
    ne = it.nonempty(s)
    if not (ne if isinstance(ne, bool) else it.ctx.branch(ne)):
        if 'default' in k:
            return k['default']
        raise Raised(ExcVal(ValueError, ('max() arg is an empty sequence',)))
    if s.concrete and not any(is_sym(v) for v in s.items()):
        return (max if biggest else min)(s.items())
    if not all(numeric(p.value) for p in s.parts):
        if s.concrete:
            r = s.items()[0]
            for v in s.items()[1:]:
                if it.truth(it.lt(r, v) if biggest else it.lt(v, r)):
                    r = v
            return r
        raise Unsupported('max of values which are not numbers')
    m = it.ctx.fresh('max', z3.IntSort())
    some = []
    for p in s.parts:
        q = rename(it.ctx, p)
        z = zi(q.value)
        it.ctx.assume(forall(q.vars, q.guard, m >= z if biggest else m <= z))
        some.append(exists(q.vars, z3.And(q.guard, m == z)))
    it.ctx.assume(z3.Or(some))
    return SInt(m)


@fn(max)
def max_(it, a, k):
    return extreme(it, a, k, True)


@fn(min)
def min_(it, a, k):
    return extreme(it, a, k, False)


@fn(abs)
def abs_(it, a, k):
    return mkint(z3.If(zi(a[0]) < 0, -zi(a[0]), zi(a[0]))) if isinstance(a[0], SInt) else it.native(abs, a, k)


@fn(divmod)
def divmod_(it, a, k):
    return (binop(it, ast.FloorDiv(), a[0], a[1]), binop(it, ast.Mod(), a[0], a[1]))


@fn(pow)
def pow_(it, a, k):
    if any(is_sym(x) for x in a):
        if isinstance(a[1], SInt) and isinstance(a[0], int) and len(a) == 2:
            f = z3.Function('pow.%d' % a[0], z3.IntSort(), z3.IntSort())
            it.ctx.taint('power')
            return SInt(f(a[1].z))
        raise Unsupported('power')
    return it.native(pow, a, k)


@fn(bytes)
def bytes_(it, a, k):
    if not any(is_sym(x) for x in a):
        return it.native(bytes, a, k)
    s = it.to_seq(a[0])
    c = it.concretize(s) if s.concrete else NotImplemented
    if c is not NotImplemented:
        return bytes(c)
    return SKey(it.opaque('bytes', s.parts, z3.RealSort()), 'bytes')


@fn(iter)
def iter_(it, a, k):
    v = a[0]
    if isinstance(v, VIter):
        return v
    return VIter(it.to_seq(v), 0, it.ctx.epoch)


@fn(next)
def next_(it, a, k):
    v = a[0]
    if not isinstance(v, VIter):
        if is_sym(v):
            raise Unsupported('next')
        return it.native(next, a, k)
    if v.pos is None:
        raise Unsupported('next of a consumed iterator')
    s = it.to_seq(v.seq)
    if s.concrete and isinstance(v.pos, int):
        if v.pos >= len(s.parts):
            if len(a) > 1:
                return a[1]
            raise Raised(ExcVal(StopIteration, ()))
        v.pos += 1
        return s.parts[v.pos - 1].value
    if isinstance(v.pos, int) and v.pos < len(s.parts) and all(is_one(p) for p in s.parts[:v.pos + 1]):
        v.pos += 1
        return s.parts[v.pos - 1].value
    p = it.single(s)
    if p is None:
        if isinstance(v.pos, int) and v.pos == 0 and not s.concrete:
            # some element of the sequence
            ne = it.nonempty(s)
            if not (ne if isinstance(ne, bool) else it.ctx.branch(ne)):
                if len(a) > 1:
                    return a[1]
                raise Raised(ExcVal(StopIteration, ()))
            opts, qs = [], []
            for q in s.parts:
                q = rename(it.ctx, q)
                w = [it.ctx.fresh('w', x.sort()) for x in q.vars]
                pairs = list(zip(q.vars, w))
                qs.append(v_subst(q.value, pairs))
                opts.append(z_subst(q.guard, pairs))
            c = it.ctx.decide(opts)
            v.pos = None
            it.touch_deep(qs[c])
            return qs[c]
        raise Unsupported('next')
    z = zi(v.pos)
    if it.ctx.branch(z < p.n):
        v.pos = SInt(z3.simplify(z + 1))
        r = v_subst(p.value, [(p.vars[0], z)])
        it.touch_deep(r)
        return r
    if len(a) > 1:
        return a[1]
    raise Raised(ExcVal(StopIteration, ()))


@fn(getattr)
def getattr_(it, a, k):
    if is_sym(a[1]):
        raise Unsupported('getattr')
    try:
        return it.getattr(a[0], a[1])
    except Raised as r:
        if len(a) > 2 and issubclass(r.exc.cls, AttributeError):
            return a[2]
        raise


@fn(hasattr)
def hasattr_(it, a, k):
    v = a[0]
    if isinstance(v, (VList, VSet, VDict, SStr, VIter)):
        return hasattr({VList: [], VSet: set(), VDict: {}, SStr: '', VIter: iter([])}[type(v)], a[1])
    if isinstance(v, (SInt, SBool)):
        return hasattr(0, a[1])
    try:
        it.getattr(v, a[1])
        return True
    except Raised as r:
        if issubclass(r.exc.cls, AttributeError):
            return False
        raise


@fn(setattr)
def setattr_(it, a, k):
    return it.setattr(a[0], a[1], a[2])


@fn(print)
def print_(it, a, k):
    return None


@fn(super)
def super_(it, a, k):
    from .interp import SuperX
    return SuperX(a[0], a[1])


@fn(hash)
def hash_(it, a, k):
    v = a[0]
    if isinstance(v, (SRef, HObj)):
        return it.call(it.getattr(v, '__hash__'), [], {})
    if isinstance(v, (SStr, SKey, SInt)):
        return call_method(it, v, '__hash__', [], {})
    return it.native(hash, a, k)


@fn(object.__new__)
def new_(it, a, k):
    return HObj(a[0], epoch=it.ctx.epoch)


@fn(itertools.chain)
def chain_(it, a, k):
    r = VList(epoch=it.ctx.epoch)
    for x in a:
        if isinstance(x, StarArgs):
            y = flatten(it, x.seq)
        else:
            y = it.to_seq(x)
        r.parts += [rename(it.ctx, p) for p in y.parts]
        r.unordered |= y.unordered
    return r


def flatten(it, s):
    from .loops import element, split
    out, unordered = [], s.unordered
    for p in s.parts:
        if is_one(p):
            y = it.to_seq(p.value)
            out += y.parts
            unordered |= y.unordered
            continue
        q = rename(it.ctx, p)
        outcomes = element(it, q, lambda: it.to_seq(q.value))
        unordered |= len(outcomes) > 1
        for conds, (kind, y), eff in outcomes:
            dec, _ = split(conds)
            unordered |= y.unordered
            for r in y.parts:
                r = rename(it.ctx, r)
                out.append(Part(q.vars + r.vars, conj([q.guard] + dec + [r.guard]), r.value))
    r = VList(out, epoch=it.ctx.epoch)
    r.unordered = unordered
    return r


@fn(itertools.chain.from_iterable)
def from_iterable_(it, a, k):
    return flatten(it, it.to_seq(a[0]))


@fn(itertools.repeat)
def repeat_(it, a, k):
    if k or len(a) != 2:
        raise Unsupported('repeat')
    if isinstance(a[1], int):
        return VList([one(a[0])] * a[1], epoch=it.ctx.epoch)
    src = getattr(a[1], 'of', None)
    if src is not None:         # as many as the elements of this list
        return VList([Part(p.vars, p.guard, a[0], p.n) for p in src], epoch=it.ctx.epoch)
    n = zi(a[1])
    return VList([indexed(it.ctx, z3.If(n > 0, n, 0), lambda i: a[0])], epoch=it.ctx.epoch)


@fn(itertools.product)
def product_(it, a, k):
    if k or any(isinstance(x, StarArgs) for x in a):
        raise Unsupported('product')
    ss = [it.to_seq(x) for x in a]
    if all(s.concrete for s in ss):
        return VList([one(t) for t in itertools.product(*[s.items() for s in ss])], epoch=it.ctx.epoch)
    out = [Part([], z3.BoolVal(True), ())]
    for s in ss:
        new = []
        for o in out:
            for p in s.parts:
                q = rename(it.ctx, p)
                g = [x for x in (o.guard, q.guard) if not z3.is_true(x)]
                new.append(Part(o.vars + q.vars, conj(g), o.value + (q.value,)))
        out = new
    r = VList(out, epoch=it.ctx.epoch)
    r.unordered = any(s.unordered for s in ss) or len(out) > 1
    return r


import collections   # noqa


@fn(collections.defaultdict)
def defaultdict_(it, a, k):
    return VDict(epoch=it.ctx.epoch, default=a[0] if a else None)


@fn(id)
def id_(it, a, k):
    raise Unsupported('id')


import logging   # noqa
for _f in (logging.error, logging.warning, logging.info, logging.debug):
    FUNCS[_f] = lambda it, a, k: None
