"""Contracts of the actions of a PLY grammar: each production of each p_* method, read from its docstring as PLY does."""
from .common import *


def productions(cls):
    """[(function, left symbol, right symbols)]"""
    r = []
    for n in sorted(dir(cls)):
        if n.startswith('p_') and n != 'p_error':
            f = getattr(cls, n)
            f = getattr(f, '__func__', f)
            left = None
            for line in (f.__doc__ or '').splitlines():
                w = line.split()
                if not w:
                    continue
                if w[0] == '|':
                    rest = w[1:]
                else:
                    left, rest = w[0], w[2:]
                    need(w[1] in (':', '::='), 'rule %s' % line)
                r.append((f, left, [] if rest == ['empty'] else rest))
    return r


def p_stub(it, values):
    """the production object given to an action: p[0] is set by it"""
    o = stub_obj(it, 'production')
    o.vals = [None] + list(values)
    o.is_set = False

    def get(it, a, k):
        if not isinstance(a[0], int):
            raise Unsupported('index of a production')
        if not -len(o.vals) <= a[0] < len(o.vals):
            raise Raised(ExcVal(IndexError, ('list index out of range',)))
        return o.vals[a[0]]

    def put(it, a, k):
        if not isinstance(a[0], int) or not 0 <= a[0] < len(o.vals):
            raise Unsupported('index of a production')
        o.vals[a[0]] = a[1]
        o.is_set = o.is_set or a[0] == 0
    o.methods = {'__getitem__': lambda it, _: Stub(get), '__setitem__': lambda it, _: Stub(put),
                 '__len__': lambda it, _: Stub(lambda it, a, k: len(o.vals))}
    return o


class Recorder:
    """constructors replaced by stubs which give a fresh object and record their arguments"""
    def __init__(self, it):
        self.it, self.made, self.keep = it, {}, []

    def stub(self, target, typ, names, facts=None):
        f = eval('lambda %s: 0' % names)

        def new(it, a, k):
            x = bind(f, a, k)
            r = it.fresh('made', typ)
            self.keep.append(r)
            self.made[r.z.get_id()] = (target.split(':')[1], dict(x))
            for g in facts(r, x) if facts else ():
                it.ctx.assume(g)
            return r
        self.it.ctx.contracts[target] = new

    def of(self, x):
        """(class, arguments) of an object made, or None"""
        return self.made.get(x.z.get_id()) if isinstance(x, SRef) else None
