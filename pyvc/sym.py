"""Symbolic values and the path context of pyvc.

Every z3 formula here is generated from the source of /repo read on this run; nothing about the code is cached."""
import itertools
import time

import z3

Ref = z3.DeclareSort('Ref')


class Unsupported(Exception):
    """the code uses something outside of the verified subset: the obligation is undecided, never violated"""


class Infeasible(Exception):
    """the current path has a contradictory condition"""


class Raised(Exception):
    """an exception of the interpreted program"""
    def __init__(self, exc):
        Exception.__init__(self, exc)
        self.exc = exc   # ExcVal


class ExcVal:
    def __init__(self, cls, args=(), concrete=None):
        self.cls, self.args, self.concrete = cls, tuple(args), concrete
        self.attrs = {}

    def __repr__(self):
        return 'ExcVal(%s)' % self.cls.__name__


# ------------------------------------------------------------------ scalar values

class Sym:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, str(self.z)[:80])

    def __bool__(self):
        raise Unsupported('native truth test of a symbolic value')

    def __eq__(self, other):
        raise Unsupported('native comparison of a symbolic value')

    __lt__ = __gt__ = __le__ = __ge__ = __eq__

    def __hash__(self):
        raise Unsupported('native hash of a symbolic value')


class SInt(Sym):
    __slots__ = ('of',)


class SBool(Sym):
    __slots__ = ()


class SStr(Sym):
    __slots__ = ()


class SKey(Sym):
    """opaque value of a totally ordered type (bytes): an order embedding in the reals"""
    __slots__ = ('kind',)

    def __init__(self, z, kind='key'):
        self.z, self.kind = z, kind


class SRef(Sym):
    """immutable reference to an object of a declared type"""
    __slots__ = ('typ',)

    def __init__(self, z, typ):
        self.z, self.typ = z, typ


class Poison:
    def __init__(self, why):
        self.why = why


# ------------------------------------------------------------------ containers

class Part:
    """the elements value(vars) for all the values of vars within guard; no var: one element (if the guard holds)"""
    __slots__ = ('vars', 'guard', 'value', 'n')

    def __init__(self, vars, guard, value, n=None):
        self.vars, self.guard, self.value = list(vars), guard, value
        self.n = n     # indexed part: one variable i, guard 0 <= i < n


def one(v):
    return Part([], z3.BoolVal(True), v)


def is_one(p):
    return not p.vars and z3.is_true(p.guard)


READS = []     # stack of {id: container}: the containers read while the body of a loop is explored


class Container:
    """the reads of the content are recorded: a loop which changes a container must not read it"""
    copied = False     # copy of an element of a symbolic container: changing it would not change the element

    def writable(self):
        if self.copied:
            raise Unsupported('change of an element of a symbolic container')

    @property
    def parts(self):
        if READS:
            READS[-1][id(self)] = self
        return self._parts

    @parts.setter
    def parts(self, v):
        self._parts = v


class VList(Container):
    """list or tuple built by the interpreted code"""
    def __init__(self, parts=(), frozen=False, kind='list', epoch=0):
        self.parts = list(parts)
        self.frozen, self.kind, self.epoch = frozen, kind, epoch
        self.unordered = False   # the order of the elements is not represented
        self.bag = None          # identity of the bag of elements, kept by sorting

    @property
    def concrete(self):
        return all(is_one(p) for p in self.parts)

    def items(self):
        return [p.value for p in self.parts]

    def __repr__(self):
        return 'VList%r' % [p.value if is_one(p) else (p.vars, p.value) for p in self.parts]


class VSet(Container):
    def __init__(self, parts=(), epoch=0):
        self.parts = list(parts)
        self.epoch = epoch

    @property
    def concrete(self):
        return all(is_one(p) for p in self.parts)

    def items(self):
        return [p.value for p in self.parts]


class VDict(Container):
    """items: Parts whose value is a pair (key, value); concrete when every part is a single pair with concrete keys"""
    def __init__(self, parts=(), epoch=0, default=None):
        self.parts = list(parts)
        self.epoch = epoch
        self.default = default

    @property
    def concrete(self):
        return all(is_one(p) for p in self.parts)


class HObj:
    """heap object of a real class, created by the interpreted code or given as a fresh mutable argument"""
    many = False
    _n = itertools.count()

    def __init__(self, cls, attrs=None, epoch=0):
        self.cls, self.attrs, self.epoch = cls, dict(attrs or {}), epoch
        self.id = next(self._n)
        self.ghost = {}
        self.partial = True    # given by a contract: it may have other attributes

    def __repr__(self):
        return '<HObj %s>' % self.cls.__name__


class VIter:
    def __init__(self, seq, pos=0, epoch=0):
        self.seq, self.pos, self.epoch = seq, pos, epoch


# ------------------------------------------------------------------ types of symbolic objects

class T:
    """type descriptors"""
    Int, Bool, Str, Key = 'int', 'bool', 'str', 'key'

    class Obj:
        def __init__(self, typ):
            self.typ = typ

    class Seq:
        def __init__(self, elem, kind='list'):
            self.elem, self.kind = elem, kind

    class Opt:
        def __init__(self, elem):
            self.elem = elem

    class Set:
        def __init__(self, elem):
            self.elem = elem

    class Enum:
        """one of the given concrete values"""
        def __init__(self, values):
            self.values = list(values)


SORTS = {'int': z3.IntSort(), 'bool': z3.BoolSort(), 'str': z3.StringSort(), 'key': z3.RealSort()}
MK = {'int': SInt, 'bool': SBool, 'str': SStr, 'key': SKey}


class ObjType:
    """a type of symbolic (immutable) objects: real classes, attributes, and contracts of methods"""
    def __init__(self, name, classes, attrs, methods=None, key=None, inv=None):
        self.name, self.classes, self.attrs = name, list(classes), dict(attrs)
        self.methods = dict(methods or {})
        self.key = key        # attribute which decides ==
        self.fields = None    # names of the attributes of a tuple, in order
        self.inv = inv        # f(ref) -> list of z3 facts, instantiated on every reference which is met
        self.tag_f = z3.Function('tag.' + name, Ref, z3.IntSort())

    def tag(self, z):
        return self.tag_f(z)

    def tags_of(self, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        return [i for i, c in enumerate(self.classes) if any(isinstance(k, type) and issubclass(c, k) for k in cs)]

    def is_a(self, z, cls):
        ts = self.tags_of(cls)
        if len(ts) == len(self.classes):
            return z3.BoolVal(True)
        return z3.Or([self.tag(z) == i for i in ts]) if ts else z3.BoolVal(False)

    def fun(self, attr, t, extra=()):
        s = SORTS.get(t, Ref) if isinstance(t, str) else Ref
        return z3.Function('%s.%s' % (self.name, attr), *([Ref] + list(extra) + [s]))

    def z(self, name, ref):
        """the z3 term of a scalar or object attribute"""
        t = self.attrs[name]
        if isinstance(t, T.Opt):
            t = t.elem
        return self.fun(name, t)(ref)

    def none(self, name, ref):
        return z3.Function('%s.%s.none' % (self.name, name), Ref, z3.BoolSort())(ref)

    def len(self, name, ref):
        return z3.Function('%s.%s.len' % (self.name, name), Ref, z3.IntSort())(ref)

    def at(self, name, ref, i):
        t = self.attrs[name]
        if isinstance(t, T.Opt):
            t = t.elem
        s = SORTS.get(t.elem) if isinstance(t.elem, str) else Ref
        return z3.Function('%s.%s.at' % (self.name, name), Ref, z3.IntSort(), s)(ref, i)


# ------------------------------------------------------------------ context: decisions, path condition, solver

class Stats:
    def __init__(self):
        self.queries, self.solver_s, self.backends = 0, 0.0, {}

    def add(self, backend, t):
        self.queries += 1
        self.solver_s += t
        self.backends[backend] = self.backends.get(backend, 0) + 1


class Frame:
    """the decisions of one exploration (the main one, or that of a loop body)"""
    def __init__(self, prefix):
        self.prefix, self.taken, self.todo = list(prefix), [], []


NONLINEAR = {}     # identifier of a term -> (the term, kept alive, answer)


def nonlinear(f):
    """does the formula contain a product or a division of unknowns"""
    k = f.get_id()
    r = NONLINEAR.get(k)
    if r is None:
        r = NONLINEAR[k] = (f, _nonlinear(f))
    return r[1]


def _nonlinear(f):
    stack, seen = [f], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL and sum(not z3.is_int_value(c) and not z3.is_rational_value(c) for c in t.children()) > 1:
                return True
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not z3.is_int_value(t.arg(1)):
                return True
            stack += t.children()
    return False


class Ctx:
    FEASIBLE_MS = 1500
    MAX_PATHS = 6000

    def __init__(self, axioms=(), stats=None, deadline=None):
        self.axioms = list(axioms)
        self.stats = stats or Stats()
        self.deadline = deadline
        self.frames = []
        self.pc = []
        self.pcd = []         # is the condition a decision (else a fact)
        self.bound = []       # bound variables of the enclosing loop bodies (skolem constants)
        self.n = 0
        self.unknowns = 0
        self.epoch = 0
        self.effects = None
        self.taints = set()
        self.facts = set()
        self.keep = []        # terms whose identifiers are in facts
        self.solver = None
        self.trace = VList()  # ghost events
        self.contracts = {}
        self.used = set()     # names of the functions interpreted or used by contract
        self.assumed = set()

    # ---- fresh names
    def name(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def fresh(self, base, sort):
        if self.bound:
            return z3.Function(self.name(base), *([b.sort() for b in self.bound] + [sort]))(*self.bound)
        return z3.Const(self.name(base), sort)

    # ---- path condition
    def assume(self, f, decision=False):
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        self.pc.append(f)
        self.pcd.append(decision)
        if self.solver is not None and not nonlinear(f):   # feasibility is over-approximated
            self.solver.add(f)

    def start_solver(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.FEASIBLE_MS)
        self.solver_ms = self.FEASIBLE_MS
        for a in self.axioms:
            self.solver.add(a)
        for f in self.pc:
            if not nonlinear(f):
                self.solver.add(f)

    def feasible(self, f):
        if nonlinear(f):
            return True
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit of the symbolic execution')
        t = time.time()
        # after several unknown answers in a row, later ones are given less time (an undecided branch is explored)
        ms = self.FEASIBLE_MS if self.unknowns < 3 else 150
        if ms != self.solver_ms:
            self.solver_ms = ms
            self.solver.set('timeout', ms)
        r = self.solver.check(f)
        if r == z3.unknown:
            self.unknowns += 1
        self.stats.add('z3', time.time() - t)
        return r != z3.unsat

    def decide(self, options):
        """options: z3 conditions; picks one which is feasible, the others are explored later"""
        fr = self.frames[-1]
        k = len(fr.taken)
        if k < len(fr.prefix):
            c = fr.prefix[k]
        else:
            ok = [i for i, f in enumerate(options) if not z3.is_false(f) and
                  (z3.is_true(f) or self.feasible(f))]
            if not ok:
                raise Infeasible()
            c = ok[0]
            for i in ok[1:]:
                fr.todo.append(fr.taken + [i])
        fr.taken.append(c)
        self.assume(options[c], True)
        return c

    def branch(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return self.decide([z, z3.Not(z)]) == 0

    def choose(self, n):
        if n == 1:
            return 0
        if len(self.frames) > 1:        # one choice per iteration
            c = self.fresh('choice', z3.IntSort())
            return self.decide([c == i for i in range(n - 1)] + [z3.And([c != i for i in range(n - 1)])])
        return self.decide([z3.BoolVal(True)] * n)

    # ---- explorations
    def explore(self, thunk):
        """main exploration: thunk() is run once per path; -> list of its results"""
        todo, res = [[]], []
        while todo:
            if len(res) > self.MAX_PATHS:
                raise Unsupported('too many paths')
            prefix = todo.pop()
            self.frames = [Frame(prefix)]
            self.pc, self.pcd, self.n, self.epoch, self.effects, self.facts = [], [], 0, 0, None, set()
            self.bound, self.trace = [], VList()
            self.taints = set()
            self.start_solver()
            try:
                res.append(thunk())
            except Infeasible:
                pass
            todo += self.frames[0].todo
        return res

    def sub(self, thunk, bound):
        """exploration of a loop body: -> [(conditions, result of thunk)]"""
        base = len(self.pc)
        facts0 = set(self.facts)
        keep_effects, keep_bound, keep_epoch = self.effects, self.bound, self.epoch
        todo, res = [[]], []
        n0 = self.n
        nmax = n0
        READS.append({})
        try:
            while todo:
                if len(res) > 400:
                    raise Unsupported('too many paths in a loop body')
                prefix = todo.pop()
                self.frames.append(Frame(prefix))
                self.solver.push()
                self.effects, self.bound, self.epoch = [], keep_bound + list(bound), keep_epoch + 1
                self.facts = set(facts0)
                self.n = n0
                try:
                    r = thunk()
                    res.append((list(zip(self.pc[base:], self.pcd[base:])), r, self.effects))
                except Infeasible:
                    pass
                finally:
                    nmax = max(nmax, self.n)
                    del self.pc[base:]
                    del self.pcd[base:]
                    self.solver.pop()
                    todo += self.frames.pop().todo
        finally:
            self.effects, self.bound, self.epoch, self.facts = keep_effects, keep_bound, keep_epoch, facts0
            self.n = nmax
            reads = READS.pop()
            if READS:
                READS[-1].update(reads)
        for _, _, effs in res:
            for obj, _, _ in effs:
                if id(obj) in reads and obj is not self.trace:
                    raise Unsupported('a loop body reads what it accumulates')
        return res

    def event(self, *ev):
        """ghost event of the trace"""
        if self.effects is not None:
            self.effects.append((self.trace, 'append', ev))
        else:
            self.trace.parts.append(one(ev))

    def taint(self, why, term=None):
        """an abstracted value was met; with the name of its term: it matters only where the term occurs"""
        self.taints.add((why, term))

    def taints_of(self, goal):
        if not self.taints:
            return set()
        names = set()
        if any(t is not None for _, t in self.taints):
            stack, seen = [goal] + list(self.axioms) + self.pc, set()
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_quantifier(t):
                    stack.append(t.body())
                elif z3.is_app(t):
                    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        names.add(t.decl().name())
                    stack += t.children()
        return {w for w, t in self.taints if t is None or t in names}


def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    return z3.And(l) if len(l) > 1 else l[0] if l else z3.BoolVal(True)


def forall(vs, guard, body):
    f = z3.Implies(guard, body) if not z3.is_true(guard) else body
    return z3.ForAll(list(vs), f) if vs else f


def exists(vs, body):
    return z3.Exists(list(vs), body) if vs else body


def z_subst(x, pairs):
    return z3.substitute(x, *pairs) if pairs else x


def v_subst(v, pairs):
    """substitution in a value"""
    if isinstance(v, SRef):
        return SRef(z_subst(v.z, pairs), v.typ)
    if isinstance(v, SKey):
        return SKey(z_subst(v.z, pairs), v.kind)
    if isinstance(v, Sym):
        return type(v)(z_subst(v.z, pairs))
    if isinstance(v, tuple):
        return tuple(v_subst(x, pairs) for x in v)
    if isinstance(v, VList):
        r = VList([p_subst(p, pairs) for p in v.parts], v.frozen, v.kind, v.epoch)
        r.unordered = v.unordered
        r.copied = True
        return r
    if isinstance(v, VSet):
        r = VSet([p_subst(p, pairs) for p in v.parts], v.epoch)
        r.copied = True
        return r
    if isinstance(v, VDict):
        r = VDict([p_subst(p, pairs) for p in v.parts], v.epoch, v.default)
        r.may_repeat = getattr(v, 'may_repeat', False)
        r.copied = True
        return r
    if isinstance(v, HObj):
        if v.many:
            raise Unsupported('one of the objects created by a loop')
        return v
    if v is None or isinstance(v, (bool, int, str)):
        return v
    from .loops import occurs
    if occurs(v, [a for a, _ in pairs]):
        raise Unsupported('one of the %s created by a loop' % type(v).__name__)
    return v


def p_subst(p, pairs):
    return Part(p.vars, z_subst(p.guard, pairs), v_subst(p.value, pairs), None if p.n is None else z_subst(p.n, pairs))


def indexed(ctx, n, f, base='i'):
    """the part f(i) for 0 <= i < n"""
    i = z3.Int(ctx.name(base))
    return Part([i], z3.And(i >= 0, i < n), f(i), n)


def rename(ctx, p):
    """the part with fresh bound variables"""
    if not p.vars:
        return p
    vs = [z3.Const(ctx.name('b'), v.sort()) for v in p.vars]
    pairs = list(zip(p.vars, vs))
    return Part(vs, z_subst(p.guard, pairs), v_subst(p.value, pairs), p.n)
