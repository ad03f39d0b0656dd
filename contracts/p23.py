"""P23: edits. The database and the git transaction are replaced by their contracts (P18, P19): the requests made to the
database are recorded in a trace, and the records after the edit are the ones before, changed by these requests in order."""
from .uslcommon import *
from .p19 import events, quiet
from .p18 import inner
from ieml.ieml_database.ieml_database import IEMLDatabase
from ieml.ieml_database.descriptors import Descriptors
from ieml.ieml_database.ieml_database import Structure
from ieml.ieml_database.git_interface import GitInterface
from ieml.constants import LANGUAGES, DESCRIPTORS_CLASS, STRUCTURE_KEYS, INHIBITABLE_RELATIONS

MOD = 'ieml.ieml_database.transactions.DBTransaction'
TX = MOD + ':DBTransactions.'
STR, B, I = z3.StringSort(), z3.BoolSort(), z3.IntSort()
S_ = z3.StringVal

ED = ObjType('Edited script', [MultiplicativeScript], dict(_str=T.Str, cardinal=T.Int), key='_str',
             inv=lambda z: [ED.z('cardinal', z) >= 1, ED.len('singular_sequences', z) >= 0])
ED.attrs.update(singular_sequences=T.Seq(ED), tables_script=T.Seq(ED))
US = ObjType('Edited usl', [Word], dict(_str=T.Str), key='_str')
for t in (ED, US):
    t.methods['__str__'] = lambda it, o: Stub(lambda it, a, k: SStr(o.typ.z('_str', o.z)))
ED.methods['__len__'] = lambda it, o: Stub(lambda it, a, k: SInt(ED.z('cardinal', o.z)))
WITHIN = z3.Function('contains', STR, STR, B)
ED.methods['__contains__'] = lambda it, o: Stub(lambda it, a, k: SBool(WITHIN(text(o), text(a[0]))))

FACT = z3.Function('factorized', Ref, Ref)
HAS_ROOT, ROOT = z3.Function('has a root', STR, B), z3.Function('root', STR, Ref)
IS_ROOT, DEFINED = z3.Function('is a root', STR, B), z3.Function('is in the dictionary', STR, B)
# the records before the edit
D_N, D_AT = z3.Function('descriptors', STR, STR, STR, I), z3.Function('descriptor', STR, STR, STR, I, STR)
D_IN, D_IDX = z3.Function('is described', STR, STR, STR, STR, B), z3.Function('index of', STR, STR, STR, STR, I)
S_N, S_AT = z3.Function('structures', STR, STR, I), z3.Function('structure', STR, STR, I, STR)
S_IN, S_IDX = z3.Function('is structured', STR, STR, STR, B), z3.Function('index of structure', STR, STR, STR, I)


def text(x):
    return x.typ.z('_str', x.z) if isinstance(x, SRef) else zstr(x)


def facts():
    u, l, d, w = z3.Consts('u0 l0 d0 w0', STR)
    i = z3.Int('i0')
    dn, dx = D_N(u, l, d), D_IDX(u, l, d, w)
    sn, sx = S_N(u, d), S_IDX(u, d, w)
    return [
        z3.ForAll([u, l, d], dn >= 0, patterns=[dn]), z3.ForAll([u, d], sn >= 0, patterns=[sn]),
        z3.ForAll([u, l, d, i], z3.Implies(z3.And(i >= 0, i < dn), D_IN(u, l, d, D_AT(u, l, d, i))), patterns=[D_AT(u, l, d, i)]),
        z3.ForAll([u, d, i], z3.Implies(z3.And(i >= 0, i < sn), S_IN(u, d, S_AT(u, d, i))), patterns=[S_AT(u, d, i)]),
        z3.ForAll([u, l, d, w], z3.Implies(D_IN(u, l, d, w), z3.And(dx >= 0, dx < dn, D_AT(u, l, d, dx) == w)), patterns=[D_IN(u, l, d, w)]),
        z3.ForAll([u, d, w], z3.Implies(S_IN(u, d, w), z3.And(sx >= 0, sx < sn, S_AT(u, d, sx) == w)), patterns=[S_IN(u, d, w)])]


class World:
    def __init__(self, it, v, edited=()):
        self.it, self.v = it, v
        quiet(it)
        for f in facts():
            it.ctx.assume(f)
        for n in ('error', 'print'):
            it.globals[MOD, n] = Stub(lambda it, a, k: None)
        js = stub_obj(it, 'json')
        js.methods = {'dumps': lambda it, o: Stub(lambda it, a, k: it.fresh('json', T.Str))}
        it.globals[MOD, 'json'] = js
        tq = stub_obj(it, 'tqdm')
        tq.methods = {'tqdm': lambda it, o: Stub(lambda it, a, k: a[0]), '__call__': lambda it, o: Stub(lambda it, a, k: a[0])}
        it.globals[MOD, 'tqdm'] = tq
        it.ctx.contracts['ieml.dictionary.script.tools:factorize'] = lambda it, a, k: it.ref(FACT(a[0].z), ED)
        it.globals[MOD, 'IEMLDatabase'] = Stub(self.open)
        self.signature, self.folder = stub_obj(it, 'signature'), '/folder'
        git = stub_obj(it, 'gitdb', folder=self.folder)
        git.methods = {'commit': lambda it, o: Stub(self.commit)}
        self.o = HObj(v.resolve(TX[:-1]), epoch=it.ctx.epoch)
        self.o.attrs.update(gitdb=git, signature=self.signature, cache_folder='/cache', use_cache=True)
        self.usls = None
        self.flag = {}

    def script(self, name):
        return self.it.fresh(name, ED)

    # ---- the transaction, by its contract (P19)
    def commit(self, it, a, k):
        b = bind(inner(GitInterface.commit), [None] + list(a), k)
        c = stub_obj(it, 'transaction')
        c.methods = {'__enter__': lambda it, o: Stub(lambda it, a, k: it.ctx.event('open', b['signature'])),
                     '__exit__': lambda it, o: Stub(lambda it, a, k: it.ctx.event('close', a[0] is not None) and None)}
        return c

    # ---- the database, by its contract (P18)
    def open(self, it, a, k):
        b = bind(IEMLDatabase.__init__, [None] + list(a), k)
        self.v.ensure('the database of the repository', b['folder'] == self.folder)
        db = stub_obj(it, 'db', folder=self.folder)
        M = {}
        for n in ('add_descriptor', 'remove_descriptor', 'add_structure', 'remove_structure'):
            M[n] = lambda it, o, n=n: Stub(lambda it, a, k: self.effect(n, a, k))
        for n in ('get_descriptors', 'get_structure', 'get_dictionary', 'list'):
            M[n] = lambda it, o, n=n: Stub(lambda it, a, k: self.read(n, a, k))
        db.methods = M
        return db

    def effect(self, n, a, k):
        it = self.it
        b = list(bind(inner(getattr(IEMLDatabase, n)), [None] + list(a), k).values())[1:]
        if n.startswith('remove'):
            need(b.pop() is True, 'text which is not normalized')
        key = [None if x is None else text(x) if not isinstance(x, bool) else x for x in b]
        known = []
        if n.endswith('descriptor'):
            known = [(key[1], LANGUAGES), (key[2], DESCRIPTORS_CLASS)]
        else:
            known = [(key[1], STRUCTURE_KEYS)]
            if key[1] is not None:
                need(z3.is_string_value(key[1]) or n == 'add_structure', 'key')
                if z3.is_string_value(key[1]) and key[1].as_string() == 'inhibition' and key[2] is not None:
                    known.append((key[2], INHIBITABLE_RELATIONS))
        for z, l in known:      # the keys which are refused
            if z is not None and not it.ctx.branch(z3.Or([z == S_(x) for x in l])):
                raise Raised(ExcVal(ValueError, ('key',)))
        if n.endswith('structure') and key[2] is not None:
            x = key[2]
            flag = key[1] if z3.is_string_value(key[1]) else None
            if isinstance(x, bool):
                x = S_(str(x))
            elif flag is not None and flag.as_string() == 'is_root' and z3.is_string_value(x):
                x = S_({'true': 'True', 'false': 'False'}[x.as_string().lower()])
            key[2] = x
        it.ctx.event(n, *[None if x is None else SStr(x) for x in key])

    def read(self, n, a, k):
        it = self.it
        done = [e for e in it.ctx.trace.parts if e.value[0] not in ('open', 'close')]
        need(not done and not it.ctx.effects, 'the database is read after it was changed')
        if n == 'list':
            b = bind(inner(IEMLDatabase.list), [None] + list(a), k)
            need(b['parse'] is True and b['type'] is None and b['paradigm'] is None, 'list')
            if self.usls is None:
                l = self.usls = it.fresh('usls', T.Seq(US))
                i, j = z3.Ints('ui uj')
                m = l.parts[0].n
                it.ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, i < m, j < m, i != j), US.z('_str', l.at(i)) != US.z('_str', l.at(j)))))
            return self.usls
        o = stub_obj(it, n)
        if n == 'get_descriptors':
            o.methods = {'get_values': lambda it, _: Stub(self.values), 'get_values_partial': lambda it, _: Stub(self.partial)}
        elif n == 'get_structure':
            o.methods = {'get_values': lambda it, _: Stub(self.svalues), 'get_values_partial': lambda it, _: Stub(self.spartial)}
        else:
            def has(f):
                c = stub_obj(it, 'set')
                c.methods = {'__contains__': lambda it, _: Stub(lambda it, a, k: it.wrap_bool(f(text(a[0]))))}
                return c
            tables = stub_obj(it, 'tables', roots=has(IS_ROOT))
            tables.methods = {'root': lambda it, _: Stub(self.root)}
            rel = stub_obj(it, 'relations')
            rel.methods = {'object': lambda it, _: Stub(self.relation)}
            o.attrs.update(tables=tables, relations=rel, scripts=has(DEFINED))
        return o

    def root(self, it, a, k):
        x = text(a[0])
        if not it.ctx.branch(HAS_ROOT(x)):
            raise Raised(ExcVal(KeyError, ('root',)))
        return it.ref(ROOT(x), ED)

    def relation(self, it, a, k):
        need(a[1] == 'contains', 'relation')
        x = text(a[0])
        return self.contents(x)

    def contents(self, x):
        it = self.it
        n, f = z3.Function('contained', STR, I)(x), z3.Function('contained script', STR, I, Ref)
        i = z3.Int(it.ctx.name('ci'))
        it.ctx.assume(n >= 0)
        return VList([Part([i], z3.And(i >= 0, i < n), it.ref(f(x, i), ED), n)], epoch=it.ctx.epoch)

    def dvalues(self, u, l, d):
        i = z3.Int(self.it.ctx.name('di'))
        n = D_N(u, l, d)
        return VList([Part([i], z3.And(i >= 0, i < n), SStr(D_AT(u, l, d, i)), n)], epoch=self.it.ctx.epoch)

    def values(self, it, a, k):
        b = bind(inner(Descriptors.get_values), [None] + list(a), k)
        l, d = text(b['language']), text(b['descriptor'])
        for z, known in ((l, LANGUAGES), (d, DESCRIPTORS_CLASS)):
            if not it.ctx.branch(z3.Or([z == S_(x) for x in known])):
                raise Raised(ExcVal(ValueError, ('key',)))
        return self.dvalues(text(b['ieml']), l, d)

    def partial(self, it, a, k):
        b = bind(inner(Descriptors.get_values_partial), [None] + list(a), k)
        need(b['language'] is None and b['descriptor'] is None, 'partial')
        u = text(b['ieml'])
        # the kinds without descriptor are not in the dictionary: for who reads the values of the items, as if they had none
        o = stub_obj(it, 'descriptors of a usl')
        items = VList([one(((SStr(u), l, d), self.dvalues(u, S_(l), S_(d)))) for l in LANGUAGES for d in DESCRIPTORS_CLASS], epoch=it.ctx.epoch)
        some = z3.Or([D_N(u, S_(l), S_(d)) > 0 for l in LANGUAGES for d in DESCRIPTORS_CLASS])
        o.methods = {'items': lambda it, _: Stub(lambda it, a, k: items), '__bool__': lambda it, _: Stub(lambda it, a, k: it.wrap_bool(some))}
        return o

    def slist(self, u, key):
        """is_root is a flag: one value at most"""
        it = self.it
        if key == 'is_root':
            z = [S_N(u, S_(key)) == 0] + [z3.And(S_N(u, S_(key)) == 1, S_AT(u, S_(key), 0) == S_(w)) for w in ('True', 'False')]
            k = u.sexpr()
            if k not in self.flag:
                c = self.flag[k] = it.ctx.choose(3)
                it.ctx.assume(z[c])
            c = self.flag[k]
            return VList([one(['', 'True', 'False'][c])] if c else [], epoch=it.ctx.epoch)
        i = z3.Int(it.ctx.name('si'))
        n = S_N(u, S_(key))
        if key == 'inhibition':     # none is recorded which is not known (P18)
            it.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Or([S_AT(u, S_(key), i) == S_(x) for x in INHIBITABLE_RELATIONS]))))
        return VList([Part([i], z3.And(i >= 0, i < n), SStr(S_AT(u, S_(key), i)), n)], epoch=it.ctx.epoch)

    def svalues(self, it, a, k):
        b = bind(inner(Structure.get_values), [None] + list(a), k)
        need(isinstance(b['key'], str) and b['key'] in STRUCTURE_KEYS, 'key')
        return self.slist(text(b['ieml']), b['key'])

    def spartial(self, it, a, k):
        b = bind(inner(Structure.get_values_partial), [None] + list(a), k)
        need(b['key'] is None, 'partial')
        u = text(b['ieml'])
        r = []
        for key in STRUCTURE_KEYS:
            l = self.slist(u, key)
            if l.parts:
                r.append(Part([], S_N(u, S_(key)) > 0, ((SStr(u), key), l)) if l.parts[0].vars else one(((SStr(u), key), l)))
        return VDict(r, epoch=it.ctx.epoch)

    # ---- what the edit did
    EFFECTS = ('add_descriptor', 'remove_descriptor', 'add_structure', 'remove_structure')

    def settled(self, r):
        """one transaction at most, by the author, around all the changes; -> is the edit recorded"""
        it, v = self.it, self.v
        op, cl = events(it, 'open'), events(it, 'close')
        ef = [x for n in self.EFFECTS for x in events(it, n)]
        if not v.ensure('one transaction at most', len(op) <= 1 and len(cl) == len(op) and all(not p.vars for _, p, _ in op + cl)):
            return None
        if not op:
            v.ensure('no change out of a transaction', not ef)
            return False
        v.ensure('every change is in the transaction', all(op[0][0] < k < cl[0][0] for k, _, _ in ef))
        v.ensure('it is the one of the author', op[0][2][1] is self.signature)
        failed = cl[0][2][1]
        v.ensure('a transaction fails when the edit does', failed == (not r.ok))
        return not failed

    def fold(self, kind, start, args):
        """formula: the record is there after the changes; args: the texts of the record"""
        it = self.it
        f = start
        last = None
        for n, p, e in [(e[0], p, e) for _, p, e in events(it)]:
            if n not in ('add_' + kind, 'remove_' + kind):
                continue
            vs = {x.get_id() for x in p.vars}
            need(last is None or last[0] == n or not (last[1] & vs), 'records added and removed by a same loop')
            last = (n, vs) if last is None or last[0] != n else (n, vs | last[1])
            q = rename(it.ctx, p)
            m = [z3.BoolVal(True) if x is None else zstr(x) == y for x, y in zip(q.value[1:], args)]
            hit = exists(q.vars, z3.And([q.guard] + m))
            f = z3.Or(f, hit) if n[0] == 'a' else z3.And(f, z3.Not(hit))
        return f

    def outcome(self, desc, struct, done):
        """desc(u, l, d, w), struct(u, k, w): what is recorded after the edit"""
        it, v = self.it, self.v
        u, w = z3.Const(it.ctx.name('u'), STR), z3.Const(it.ctx.name('w'), STR)
        for l in LANGUAGES:
            for d in DESCRIPTORS_CLASS:
                a = (u, S_(l), S_(d), w)
                now = self.fold('descriptor', D_IN(*a), a) if done else D_IN(*a)
                x = desc(u, l, d, w)
                v.ensure('nothing is missing in the descriptors', z3.Implies(x, now))
                v.ensure('no other descriptor', z3.Implies(now, x))
        for key in STRUCTURE_KEYS:
            a = (u, S_(key), w)
            now = self.fold('structure', S_IN(*a), a) if done else S_IN(*a)
            x = struct(u, key, w)
            v.ensure('nothing is missing in the structure', z3.Implies(x, now))
            v.ensure('no other structure', z3.Implies(now, x))

    def translations(self, name, missing=False):
        """{language: texts}"""
        it = self.it
        l = {x: it.fresh('%s in %s' % (name, x), T.Seq(T.Str)) for x in LANGUAGES}
        if missing and it.ctx.choose(2):
            del l[LANGUAGES[-1]]
        d = VDict([one((x, y)) for x, y in l.items()], epoch=it.ctx.epoch)
        return d, l

    def among(self, l, w):
        return some_element(self.it, l, lambda x: zstr(x) == w)

    def asked(self, tr, co, l, d, w):
        return {'translations': self.among(tr[l], w) if l in tr else z3.BoolVal(False), 'comments': self.among(co[l], w) if l in co else z3.BoolVal(False)}.get(d, z3.BoolVal(False))


def kept_d(u, l, d, w):
    return D_IN(u, S_(l), S_(d), w)


def kept_s(u, k, w):
    return S_IN(u, S_(k), w)


def factorized(x):
    return ED.z('_str', FACT(x.z)) == text(x)


TRUST = 'P18, P19 and P16-P17 for the database, the transaction and the dictionary'


@contract('P23', TX + 'set_descriptors', name='describe', timeout=15)
def describe(v):
    """the descriptors of one kind become the ones given (a missing language: none), and nothing else changes"""
    def path(it):
        W = World(it, v)
        is_script = bool(it.ctx.choose(2))
        x = W.script('x') if is_script else it.fresh('x', US)
        val, m = W.translations('value', missing=True)
        kind = (list(DESCRIPTORS_CLASS) + ['other'])[it.ctx.choose(len(DESCRIPTORS_CLASS) + 1)]
        r = v.call(it, W.o, x, kind, val)
        done = W.settled(r)
        if done is None:
            return
        if not r.ok:
            v.ensure('refused only if not factorized, or of an unknown kind', z3.Or(z3.Not(factorized(x)) if is_script else z3.BoolVal(False), z3.BoolVal(kind == 'other')))
            return
        v.ensure('accepted only if factorized, and of a known kind', z3.And(factorized(x) if is_script else z3.BoolVal(True), z3.BoolVal(kind != 'other')))
        W.outcome(lambda u, l, d, w: z3.If(u == text(x), W.among(m[l], w) if l in m else z3.BoolVal(False), kept_d(u, l, d, w)) if d == kind else kept_d(u, l, d, w), kept_s, done)
    v.trust(TRUST)
    v.paths(path)


@contract('P23', TX + 'set_inhibitions', name='inhibitions', timeout=15)
def inhibitions(v):
    """the inhibitions of a root become the ones given, and nothing else changes"""
    def path(it):
        W = World(it, v)
        x = W.script('x')
        l = it.fresh('inhibitions', T.Seq(T.Str))
        known = for_elements(it, l, lambda e: z3.Or([zstr(e) == S_(k) for k in INHIBITABLE_RELATIONS]))
        good = z3.And(factorized(x), HAS_ROOT(text(x)), ED.z('_str', ROOT(text(x))) == text(x), known)
        r = v.call(it, W.o, x, l)
        done = W.settled(r)
        if done is None:
            return
        if not r.ok:
            v.ensure('refused only if not a factorized root, or for an unknown inhibition', z3.Not(good))
            return
        v.ensure('accepted only for a factorized root and known inhibitions', good)
        W.outcome(kept_d, lambda u, k, w: z3.If(u == text(x), W.among(l, w), kept_s(u, k, w)) if k == 'inhibition' else kept_s(u, k, w), done)
    v.trust(TRUST)
    v.paths(path)


@contract('P23', TX + 'delete_morpheme_paradigm', name='delete a paradigm', timeout=15)
def delete(v):
    """the records of a paradigm of the dictionary are removed, and nothing else"""
    def path(it):
        W = World(it, v)
        x = W.script('x')
        # the singular sequences of the dictionary, and its paradigms, are in one root (P17)
        it.ctx.assume(z3.Implies(DEFINED(text(x)), HAS_ROOT(text(x))))
        it.ctx.assume(z3.Or(DEFINED(text(x)), z3.Not(HAS_ROOT(text(x)))))
        good = z3.And(factorized(x), DEFINED(text(x)), ED.z('cardinal', x.z) > 1)
        r = v.call(it, W.o, x)
        done = W.settled(r)
        if done is None:
            return
        if not r.ok:
            v.ensure('refused only if not a factorized paradigm of the dictionary', z3.Not(good))
            return
        v.ensure('accepted only for a factorized paradigm of the dictionary', good)
        W.outcome(lambda u, l, d, w: z3.And(u != text(x), kept_d(u, l, d, w)), lambda u, k, w: z3.And(u != text(x), kept_s(u, k, w)), done)
    v.trust(TRUST)
    v.paths(path)


@contract('P23', TX + 'delete_morpheme_root_paradigm', name='delete a root', timeout=15)
def delete_root(v):
    """the structure of a root is removed and, when asked, the descriptors of every script of the dictionary it contains"""
    def path(it):
        W = World(it, v)
        x = W.script('x')
        empty = [None, True, False][it.ctx.choose(3)]
        good = z3.And(factorized(x), IS_ROOT(text(x)))
        r = v.call(it, W.o, x) if empty is None else v.call(it, W.o, x, empty_descriptors=empty)
        done = W.settled(r)
        if done is None:
            return
        if not r.ok:
            v.ensure('refused only if not a factorized root', z3.Not(good))
            return
        v.ensure('accepted only for a factorized root', good)
        c = W.contents(text(x))
        inside = lambda u: z3.BoolVal(False) if empty is False else some_element(it, c, lambda e: text(e) == u)
        W.outcome(lambda u, l, d, w: z3.And(z3.Not(inside(u)), kept_d(u, l, d, w)), lambda u, k, w: z3.And(u != text(x), kept_s(u, k, w)), done)
    v.trust(TRUST)
    v.assume_note('P16: contains relates a root to the scripts of the dictionary it contains, itself included')
    v.paths(path)


def one_root(it, x):
    """all the singular sequences are in the dictionary, in a same root"""
    ss = it.getattr(x, 'singular_sequences')
    a, b = VList(ss.parts), VList(ss.parts)
    return z3.And(for_elements(it, a, lambda e: HAS_ROOT(text(e))), for_elements(it, a, lambda e: for_elements(
        it, b, lambda f: ED.z('_str', ROOT(text(e))) == ED.z('_str', ROOT(text(f))))), ED.len('singular_sequences', x.z) > 0)


@contract('P23', TX + 'add_morpheme_paradigm', name='create a paradigm', timeout=15)
def paradigm(v):
    """a paradigm of one root is recorded, with the texts given and nothing else"""
    def path(it):
        W = World(it, v)
        x = W.script('x')
        tr, mt = W.translations('translations', True)
        co, mc = W.translations('comments', len(mt) == len(LANGUAGES))
        it.ctx.assume(ED.len('singular_sequences', x.z) == ED.z('cardinal', x.z))
        good = z3.And(factorized(x), ED.z('cardinal', x.z) > 1, z3.Not(DEFINED(text(x))), one_root(it, x), z3.BoolVal(set(mt) == set(mc) == set(LANGUAGES)))
        r = v.call(it, W.o, x, tr, co)
        done = W.settled(r)
        if done is None:
            return
        if not r.ok:
            v.ensure('refused only if it should be', z3.Not(good))
            return
        v.ensure('accepted only a new factorized paradigm of one root, in all languages', good)
        W.outcome(lambda u, l, d, w: z3.If(u == text(x), W.asked(mt, mc, l, d, w), kept_d(u, l, d, w)),
                  lambda u, k, w: z3.If(u == text(x), w == S_('False') if k == 'is_root' else z3.BoolVal(False), kept_s(u, k, w)), done)
    v.trust(TRUST)
    v.assume_note('P05: as many singular sequences as the cardinal')
    v.paths(path)


@contract('P23', TX + 'update_all_ieml', name='migrate', timeout=20)
def migrate(v):
    """the descriptors of every USL listed become the ones of its image, and nothing else; nothing if the function fails"""
    def path(it):
        W = World(it, v)
        NEW = z3.Function('image', STR, Ref)
        FAILS = z3.Function('fails', STR, B)

        class Boom(Exception):
            pass

        def image(it, a, k):
            x = text(a[0])
            if it.ctx.branch(FAILS(x)):
                raise Raised(ExcVal(Boom, ('migration',)))
            return it.ref(NEW(x), US)
        r = v.call(it, W.o, Stub(image), 'text')
        done = W.settled(r)
        if done is None:
            return
        l = W.usls
        need(l is not None, 'the usls are not listed')
        l = VList(l.parts)
        fails = some_element(it, l, lambda e: FAILS(text(e)))
        if not r.ok:
            v.ensure('fails only with the function', z3.And(z3.BoolVal(r.raises(Boom)), fails))
            return
        v.ensure('the function is called for every usl', z3.Not(fails))
        listed = lambda u: some_element(it, l, lambda e: text(e) == u)
        W.outcome(lambda u, la, d, w: z3.Or(z3.And(z3.Not(listed(u)), kept_d(u, la, d, w)), some_element(it, l, lambda e: z3.And(
            US.z('_str', NEW(text(e))) == u, kept_d(text(e), la, d, w)))), kept_s, done)
    v.trust(TRUST)
    v.paths(path)


@contract('P23', TX + 'update_morpheme_paradigm', name='update a paradigm', timeout=20)
def update(v):
    """the records of a paradigm are given to another one; a root which is extended stays as a paradigm, with its texts marked"""
    def path(it):
        W = World(it, v)
        old, new = W.script('old'), W.script('new')
        o, n = text(old), text(new)
        for x in (old, new):
            it.ctx.assume(ED.len('singular_sequences', x.z) == ED.z('cardinal', x.z))
        it.ctx.assume(z3.Implies(DEFINED(o), HAS_ROOT(o)))
        r = v.call(it, W.o, old, new)
        done = W.settled(r)
        if done is None:
            return
        ss = it.getattr(new, 'singular_sequences')
        a, b = VList(ss.parts), VList(ss.parts)
        some_root = some_element(it, a, lambda e: HAS_ROOT(text(e)))
        same_root = for_elements(it, a, lambda e: z3.Implies(HAS_ROOT(text(e)), for_elements(it, b, lambda f: z3.Implies(
            HAS_ROOT(text(f)), ED.z('_str', ROOT(text(e))) == ED.z('_str', ROOT(text(f)))))))
        all_root = for_elements(it, a, lambda e: HAS_ROOT(text(e)))
        is_root = S_IN(o, S_('is_root'), S_('True'))
        fact = z3.And(factorized(old), factorized(new))
        good = z3.And(fact, z3.Or(o == n, z3.And(
            z3.Or(ED.z('cardinal', old.z) != 1, ED.z('cardinal', new.z) != 1), DEFINED(o), z3.Not(DEFINED(n)), some_root, same_root,
            z3.If(is_root, WITHIN(n, o), all_root))))
        if not r.ok:
            v.ensure('refused only if it should be', z3.Not(good))
            return
        v.ensure('accepted only if it should be', good)
        if not done:
            v.ensure('nothing to do only for the same script', o == n)
            return
        v.ensure('something to do only for another script', o != n)
        mark = lambda x: z3.Concat(S_('(translation migrated to '), n, S_(') '), x)
        y = z3.Const(it.ctx.name('y'), STR)
        W.outcome(lambda u, l, d, w: z3.If(u == o, z3.And(is_root, z3.Exists([y], z3.And(w == mark(y), kept_d(o, l, d, y)))),
                                           z3.Or(kept_d(u, l, d, w), z3.And(u == n, kept_d(o, l, d, w)))),
                  lambda u, k, w: z3.If(u == o, z3.And(is_root, w == S_('False')) if k == 'is_root' else z3.BoolVal(False),
                                        z3.Or(kept_s(u, k, w), z3.And(u == n, z3.If(is_root, kept_s(o, k, w), w == S_('False') if k == 'is_root' else z3.BoolVal(False))))), done)
    v.declare('no other descriptor', 'nothing is missing in the structure')
    v.trust(TRUST)
    v.paths(path)


@contract('P23', TX + 'create_root_paradigm', name='create a root', timeout=20)
def create_root(v):
    """a new root, out of the other ones, is recorded with its inhibitions and texts; then each of its tables as a paradigm"""
    def path(it):
        W = World(it, v)
        x = W.script('root')
        tr, mt = W.translations('translations', True)
        co, mc = W.translations('comments', len(mt) == len(LANGUAGES))
        inh = it.fresh('inhibitions', T.Seq(T.Str))
        known = for_elements(it, inh, lambda e: z3.Or([zstr(e) == S_(k) for k in INHIBITABLE_RELATIONS]))

        def table(it, a, k):
            b = bind(W.o.cls.add_morpheme_paradigm, a, k)
            maps = []
            for d in (b['translations'], b['comments']):
                maps += [d.get(l) if isinstance(d, dict) else it.call(it.getattr(d, 'get'), [l], {}) for l in LANGUAGES]
            it.ctx.event('table', b['script'], *maps)
        it.ctx.contracts[TX + 'add_morpheme_paradigm'] = table
        u = text(x)
        some = z3.Or([D_N(u, S_(l), S_(d)) > 0 for l in LANGUAGES for d in DESCRIPTORS_CLASS])
        ss = it.getattr(x, 'singular_sequences')
        free = for_elements(it, VList(ss.parts), lambda e: z3.Not(HAS_ROOT(text(e))))
        good = z3.And(factorized(x), ED.z('cardinal', x.z) > 1, z3.Not(some), free, known)
        r = v.call(it, W.o, x, inh, tr, co)
        done = W.settled(r)
        if done is None:
            return
        tb = events(it, 'table')
        if not r.ok:
            v.ensure('refused only if it should be', z3.Not(good))
            v.ensure('no table is defined then', not tb)
            return
        v.ensure('accepted only a new factorized paradigm, out of the other roots', good)
        W.outcome(lambda y, l, d, w: z3.Or(kept_d(y, l, d, w), z3.And(y == u, W.asked(mt, mc, l, d, w))),
                  lambda y, k, w: z3.If(z3.And(y == u, z3.BoolVal(k == 'is_root')), w == S_('True'), z3.Or(kept_s(y, k, w), z3.And(
                      y == u, W.among(inh, w) if k == 'inhibition' else z3.BoolVal(False)))), done)
        op, cl = events(it, 'open'), events(it, 'close')
        v.ensure('the tables are defined after the root', all(k > cl[0][0] for k, _, _ in tb))
        tables = it.getattr(x, 'tables_script')
        other = lambda e: text(e) != u
        L = VList([Part(p.vars, p.guard, e[1]) for _, p, e in tb])
        v.ensure('every other table is defined', for_elements(it, VList(tables.parts), lambda e: z3.Implies(other(e), some_element(
            it, L, lambda s: text(s) == text(e)))))
        v.ensure('and nothing else', for_elements(it, L, lambda s: some_element(it, VList(tables.parts), lambda e: z3.And(other(e), text(s) == text(e)))))
        E = VList([Part(p.vars, p.guard, tuple(e[1:])) for _, p, e in tb])
        for k, (m, l) in enumerate([(m, l) for m in (mt, mc) for l in LANGUAGES]):
            given = m.get(l)
            v.ensure('with the texts of the root, numbered', for_elements(it, E, lambda s: for_elements(it, VList(it.to_seq(s[1 + k]).parts), lambda x: some_element(
                it, given, lambda y: z3.PrefixOf(zstr(y), zstr(x))) if given is not None else z3.BoolVal(False))))
            if given is not None:
                v.ensure('all of them', for_elements(it, E, lambda s: for_elements(it, given, lambda y: some_element(
                    it, VList(it.to_seq(s[1 + k]).parts), lambda x: z3.PrefixOf(zstr(y), zstr(x))))))
    v.declare('every other table is defined', 'no other structure')
    v.trust(TRUST)
    v.assume_note('the tables of a root are factorized paradigms of its singular sequences (P07, P08)')
    v.paths(path)
