"""P16: relations of a dictionary. The matrices are given by the lists of coordinates which are handed to scipy."""
from .uslcommon import *
from ieml.dictionary.table.table import Table, Table1D, Table2D, TableSet, Cell
from itertools import permutations

RG = 'ieml.dictionary.relation.relations:RelationsGraph.'
TAB = ObjType('Table', [Table1D, Table2D, TableSet], dict(k=T.Key), key=None)
TAB.attrs['script'] = T.Obj(SCRIPT)
IDX = z3.Function('index', Ref, z3.IntSort())
C = lambda z, i: SCRIPT.at('children', z, z3.IntVal(i))
K = lambda z: SCRIPT.z('_str', z)
A = lambda a, z: SCRIPT.z(a, z)


def mapping(it, get):
    o = stub_obj(it, 'mapping')
    o.methods = {'__getitem__': lambda it, _: Stub(lambda it, a, k: get(a[0]))}
    return o


def dictionary(it, roots, inhib, **attrs):
    """a dictionary by its contract: the tables of each root, and the index of the scripts"""
    d = stub_obj(it, 'dictionary', tables=stub_obj(it, 'tables', roots=roots),
                 index=mapping(it, lambda s: SInt(IDX(s.z))), _inhibitions=inhib, **attrs)
    size = SInt(it.ctx.fresh('size', z3.IntSort()))
    d.methods = {'__len__': lambda it, o: Stub(lambda it, a, k: size)}
    return d, size


def matrices(it):
    """coo_matrix, replaced by a record of the coordinates"""
    made = []

    def coo(it, a, k):
        x, (i, j) = it.to_seq(a[0]).items()[0], [it.to_seq(y) for y in it.to_seq(it.to_seq(a[0]).items()[1]).items()]
        m = stub_obj(it, 'matrix')
        made.append((m, i, j, k.get('shape'), it.to_seq(x)))
        return m
    it.globals['ieml.dictionary.relation.relations', 'coo_matrix'] = Stub(coo)
    return made


def pairs(it, i, j):
    """the coordinates given by two parallel lists"""
    a, b = VList(i.parts), VList(j.parts)
    need(len(a.parts) == len(b.parts), 'coordinates')
    r = []
    for p, q in zip(a.parts, b.parts):
        need(len(p.vars) == len(q.vars), 'coordinates')
        sub = list(zip(q.vars, p.vars))
        g = z3.substitute(q.guard, *sub) if sub else q.guard
        need(z3.simplify(p.guard).eq(z3.simplify(g)), 'coordinates under other conditions')
        r.append(Part(p.vars, p.guard, (p.value, v_subst(q.value, sub)), p.n))
    return VList(r)


def fix(it, p):
    """a part at any values of its variables"""
    cs = [it.ctx.fresh('w', x.sort()) for x in p.vars]
    sub = list(zip(p.vars, cs))
    return Part(cs, z3.substitute(p.guard, *sub) if sub else p.guard, v_subst(p.value, sub), p.n)


def witness(it, l, terms, f):
    """formula: some element, at some of the terms as its variables, satisfies f (stronger than some_element)"""
    r = []
    for p in l.parts:
        for ts in permutations(terms, len(p.vars)) if len(p.vars) <= len(terms) else ():
            sub = list(zip(p.vars, ts))
            r.append(z3.And(z3.substitute(p.guard, *sub) if sub else p.guard, f(v_subst(p.value, sub))))
    return z3.Or(r) if r else z3.BoolVal(False)


def prod(z):
    return SCRIPT.tag(z) == MUL_TAG


def opposed(a, b):
    return z3.And(z3.Not(A('empty', a)), z3.Not(A('empty', b)), A('cardinal', a) == A('cardinal', b),
                  K(C(a, 0)) == K(C(b, 1)), K(C(a, 1)) == K(C(b, 0)))


def associated(a, b):
    return z3.And(A('cardinal', a) == A('cardinal', b), K(C(a, 0)) == K(C(b, 0)), K(C(a, 1)) == K(C(b, 1)),
                  K(C(a, 2)) != K(C(b, 2)))


def crossed(a, b):
    return z3.And(A('layer', a) >= 2, A('cardinal', a) == A('cardinal', b), opposed(C(a, 0), C(b, 0)),
                  opposed(C(a, 1), C(b, 1)))


SIBLINGS = [('opposed', opposed), ('associated', associated), ('crossed', crossed)]


def structure(it, v):
    """scripts above layer 0 which are not empty have at least two children, products three, of the layer below"""
    x, i = z3.Const('cx', Ref), z3.Int('ci')
    n = SCRIPT.len('children', x)
    up = A('layer', x) >= 1
    it.ctx.assume(z3.ForAll([x], z3.And(z3.Implies(z3.And(up, z3.Not(A('empty', x))), n >= 2),
                                        z3.Implies(z3.And(up, prod(x)), n == 3)), patterns=[n]))
    c = SCRIPT.at('children', x, i)
    it.ctx.assume(z3.ForAll([x, i], z3.Implies(z3.And(up, prod(x)), A('layer', c) == A('layer', x) - 1), patterns=[c]))
    v.assume_note('structure of scripts: proved of the constructors (P02, P03)')


@contract('P16', RG + '_compute_siblings', name='siblings', timeout=20)
def siblings(v):
    def path(it):
        it.merge_bools = True
        structure(it, v)
        made = matrices(it)
        l = it.fresh('l', T.Seq(TAB))
        root = it.fresh('root', SCRIPT)
        off = [[], ['opposed'], ['associated'], ['crossed']][it.ctx.choose(4)] + ['twin']
        q = z3.Int('lq')
        it.ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < l.parts[0].n), A('layer', TAB.z('script', l.at(q))) == A(
            'layer', root.z)), patterns=[l.at(q)]))
        d, size = dictionary(it, VDict([one((root, l))]), mapping(it, lambda s: VList([one(x) for x in off])))
        r = v.call(it, d)
        if not v.ensure('no exception', r.ok):
            return
        if not v.ensure('four relations', len(made) == 4 and len(it.to_seq(r.value).items()) == 4):
            return
        i, j = it.ctx.fresh('i', z3.IntSort()), it.ctx.fresh('j', z3.IntSort())
        bi, bj = z3.Ints('bi bj')
        n = l.parts[0].n
        X = lambda i: TAB.z('script', at(l, i).z)
        for (name, spec), m, (_, I, J, shape, _) in zip(SIBLINGS, it.to_seq(r.value).items(), made):
            on = z3.And(z3.BoolVal(name not in off), A('layer', root.z) > 0)
            ps = pairs(it, I, J)
            ok = lambda i, j: z3.And(on, i >= 0, i < n, j >= 0, j < n, i != j, prod(X(i)), prod(X(j)), spec(X(i), X(j)))
            eq = lambda e, i, j: z3.And(zint(e[0]) == IDX(X(i)), zint(e[1]) == IDX(X(j)))
            v.ensure('%s: all the pairs' % name, z3.Implies(ok(i, j), some_element(it, ps, lambda e: eq(e, i, j))),
                     strong=z3.Implies(ok(i, j), witness(it, ps, [i, j], lambda e: eq(e, i, j))))
            for p in ps.parts:
                q = fix(it, p)
                v.ensure('%s: no other pair' % name, z3.Implies(q.guard, z3.Exists([bi, bj], z3.And(ok(bi, bj), eq(q.value, bi, bj)))),
                         strong=z3.Implies(q.guard, z3.Or([z3.And(ok(a, b), eq(q.value, a, b)) for a, b in permutations(q.vars, 2)])))
            if not ps.parts:
                v.ensure('%s: no other pair' % name, True)
    v.paths(path)


IN = z3.Function('is contained in', Ref, Ref, z3.BoolSort())


@contract('P16', RG + '_compute_contains', name='contains', timeout=20)
def contains(v):
    """each script with itself; each paradigm of a root with its singular sequences, and with the paradigms contained in it"""
    v.use(SCR + 'Script.__contains__', lambda it, a, k: SBool(IN(a[1].z, a[0].z)))

    def path(it):
        made = matrices(it)
        roots = [(it.fresh('root%d' % i, SCRIPT), it.fresh('l%d' % i, T.Seq(TAB))) for i in range(it.ctx.choose(3))]
        for i, a in enumerate(roots):
            for b in roots[i + 1:]:
                it.ctx.assume(K(a[0].z) != K(b[0].z))
        d, size = dictionary(it, VDict([one(x) for x in roots]), None)
        it.ctx.assume(size.z >= 0)
        r = v.call(it, d)
        if not v.ensure('no exception', r.ok and len(made) == 1 and r.value is made[0][0]):
            return
        m, I, J, shape, _ = made[0]
        ps = pairs(it, I, J)
        v.ensure('shape', z3.And([zint(x) == size.z for x in it.to_seq(shape).items()]))
        i, j = it.ctx.fresh('i', z3.IntSort()), it.ctx.fresh('j', z3.IntSort())
        bi, bj = z3.Ints('bi bj')
        eq = lambda e, a, b: z3.And(zint(e[0]) == a, zint(e[1]) == b)
        v.ensure('each script contains itself', z3.Implies(z3.And(i >= 0, i < size.z), some_element(it, ps, lambda e: eq(e, i, i))))
        specs = [lambda a, b: z3.And(a >= 0, a < size.z, b == a)]
        vals = [lambda a, b: (a, a)]
        for root, l in roots:
            X = lambda i, l=l: TAB.z('script', at(l, i).z)
            S = lambda i, j, X=X: SCRIPT.at('singular_sequences', X(i), j)
            n = l.parts[0].n
            par = lambda i, X=X, n=n: z3.And(i >= 0, i < n, A('paradigm', X(i)))
            ss = lambda i, j, X=X, par=par: z3.And(par(i), j >= 0, j < SCRIPT.len('singular_sequences', X(i)))
            inn = lambda i, j, X=X, par=par: z3.And(par(i), par(j), IN(X(j), X(i)))
            v.ensure('a paradigm contains its singular sequences', z3.Implies(ss(i, j), some_element(
                it, ps, lambda e: eq(e, IDX(X(i)), IDX(S(i, j))))))
            v.ensure('a paradigm contains the paradigms which are in it', z3.Implies(inn(i, j), some_element(
                it, ps, lambda e: eq(e, IDX(X(i)), IDX(X(j))))))
            specs += [ss, inn]
            vals += [lambda a, b, X=X, S=S: (IDX(X(a)), IDX(S(a, b))), lambda a, b, X=X: (IDX(X(a)), IDX(X(b)))]
        for p in ps.parts:
            q = fix(it, p)
            v.ensure('nothing else', z3.Implies(q.guard, z3.Or([z3.Exists([bi, bj], z3.And(
                f(bi, bj), eq(q.value, *g(bi, bj)))) for f, g in zip(specs, vals)])))
    v.paths(path)


SCRIPT.attrs['_fathers'] = T.Seq(T.Int)
REC = RG + '_compute_father.<locals>._recurse_script'
RELS = ('father_substance', 'father_attribute', 'father_mode')


@contract('P16', RG + '_compute_father', name='fathers', timeout=20)
def fathers(v):
    """of each script, or each term of a sum, what the search gives from its part of that role"""
    def path(it):
        structure(it, v)
        made = matrices(it)
        l = it.fresh('scripts', T.Seq(SCRIPT))
        off = [[], ['father_mode']][it.ctx.choose(2)]
        d, size = dictionary(it, None, VList([one(x) for x in off]), scripts=l)
        # the terms of a sum are products or empty; the letters have no children
        x = z3.Const('cx', Ref)
        i = z3.Int('ci')
        c = SCRIPT.at('children', x, i)
        it.ctx.assume(z3.ForAll([x, i], z3.Implies(z3.And(SCRIPT.tag(x) == ADD_TAG, i >= 0, i < SCRIPT.len('children', x)), z3.And(
            SCRIPT.tag(c) != ADD_TAG, A('layer', c) == A('layer', x))), patterns=[c]))
        it.ctx.assume(z3.ForAll([x], z3.Implies(z3.And(A('layer', x) == 0, SCRIPT.tag(x) != ADD_TAG), SCRIPT.len('children', x) == 0),
                                patterns=[SCRIPT.len('children', x)]))
        it.ctx.taint('contract of a local function')
        it.ctx.contracts[REC] = lambda it, a, k: it.getattr(a[0], '_fathers')
        r = v.call(it, d)
        if not v.ensure('no exception', r.ok and len(made) == 3):
            return
        i, t, j = [it.ctx.fresh(n, z3.IntSort()) for n in 'itj']
        S = lambda i: at(l, i).z
        n = l.parts[0].n
        add = lambda z: SCRIPT.tag(z) == ADD_TAG
        ch = lambda z, t: SCRIPT.at('children', z, t)
        F = lambda z, j: SCRIPT.at('_fathers', z, j)
        nf = lambda z: SCRIPT.len('_fathers', z)
        eq = lambda e, a, b: z3.And(zint(e[0]) == a, zint(e[1]) == b)
        bs = z3.Ints('bi bt bj')
        for role, (_, I, J, shape, _) in enumerate(made):
            on = z3.BoolVal(RELS[role] not in off)
            ps = pairs(it, I, J)
            alone = lambda i, j: z3.And(on, i >= 0, i < n, SCRIPT.tag(S(i)) == MUL_TAG, SCRIPT.len('children', S(i)) > 0,
                                        j >= 0, j < nf(C(S(i), role)))
            term = lambda i, t, j: z3.And(on, i >= 0, i < n, add(S(i)), t >= 0, t < SCRIPT.len('children', S(i)),
                                          SCRIPT.tag(ch(S(i), t)) == MUL_TAG, SCRIPT.len('children', ch(S(i), t)) > 0, j >= 0,
                                          j < nf(C(ch(S(i), t), role)))
            va = lambda i, j: (IDX(S(i)), F(C(S(i), role), j))
            vt = lambda i, t, j: (IDX(S(i)), F(C(ch(S(i), t), role), j))
            v.ensure('those of a product', z3.Implies(alone(i, j), some_element(it, ps, lambda e: eq(e, *va(i, j)))))
            v.ensure('those of a term of a sum', z3.Implies(term(i, t, j), some_element(it, ps, lambda e: eq(e, *vt(i, t, j)))))
            for p in ps.parts:
                q = fix(it, p)
                bi, bt, bj = bs
                v.ensure('nothing else', z3.Implies(q.guard, z3.Or(
                    z3.Exists([bi, bj], z3.And(alone(bi, bj), eq(q.value, *va(bi, bj)))),
                    z3.Exists(bs, z3.And(term(*bs), eq(q.value, *vt(*bs)))))))
            if not ps.parts:
                v.ensure('nothing when inhibited', not z3.is_true(on))
    v.paths(path)


class Enough(Exception):
    """the rest of the call is of no interest"""


@contract('P16', RG + '_compute_father', name='search of fathers', timeout=20)
def search(v):
    """induction on the script: of each term of it which is not empty, itself when it is in the dictionary, else what the
    search gives from its parts"""
    def path(it):
        structure(it, v)
        matrices(it)
        first = it.fresh('first', SCRIPT)
        it.ctx.assume(z3.And(prod(first.z), A('layer', first.z) >= 1))
        l = it.fresh('scripts', T.Seq(SCRIPT))
        d, size = dictionary(it, None, VList([]), scripts=VList([one(first)] + l.parts))
        got = []

        def rec(it, a, k):
            if not got:
                got.append(a[0])
                got.append(it.call_ifunc(it.called, a, {}))
                raise Enough()
            return it.getattr(a[0], '_fathers')
        it.ctx.taint('contract of a local function')
        it.ctx.contracts[REC] = rec
        try:
            v.call(it, d)
        except Enough:
            pass
        need(len(got) == 2, 'no search of fathers')
        x, res = got[0].z, it.to_seq(got[1])
        add, null = SCRIPT.tag(x) == ADD_TAG, lambda z: SCRIPT.tag(z) == NULL_TAG
        q = z3.Int('dq')
        known = lambda z: z3.Or(K(z) == K(first.z), z3.Exists([q], z3.And(q >= 0, q < l.parts[0].n, K(z) == K(at(l, q).z))))
        ch = lambda z, t: SCRIPT.at('children', z, t)
        nch = lambda z: SCRIPT.len('children', z)
        below = lambda z, c, j: z3.And(z3.Not(null(z)), z3.Not(known(z)), A('layer', z) > 0, c >= 0, c < nch(z), j >= 0,
                                       j < SCRIPT.len('_fathers', ch(z, c)))
        t, c, j = [it.ctx.fresh(n, z3.IntSort()) for n in 'tcj']
        bt, bc, bj = z3.Ints('bt bc bj')
        F = lambda z, j: SCRIPT.at('_fathers', z, j)
        term = lambda t: z3.And(add, t >= 0, t < nch(x))
        has = lambda val: some_element(it, res, lambda e: zint(e) == val)
        v.ensure('a part in the dictionary', z3.Implies(z3.And(z3.Not(add), z3.Not(null(x)), known(x)), has(IDX(x))))
        v.ensure('those of the parts of a part which is not', z3.Implies(z3.And(z3.Not(add), below(x, c, j)), has(F(ch(x, c), j))))
        v.ensure('a term in the dictionary', z3.Implies(z3.And(term(t), z3.Not(null(ch(x, t))), known(ch(x, t))), has(IDX(ch(x, t)))))
        v.ensure('those of the parts of a term which is not', z3.Implies(z3.And(term(t), below(ch(x, t), c, j)), has(F(ch(ch(x, t), c), j))))
        for p in res.parts:
            w = fix(it, p)
            e = zint(w.value)
            v.ensure('nothing else', z3.Implies(w.guard, z3.Or(
                z3.And(z3.Not(add), z3.Not(null(x)), known(x), e == IDX(x)),
                z3.Exists([bc, bj], z3.And(z3.Not(add), below(x, bc, bj), e == F(ch(x, bc), bj))),
                z3.Exists([bt], z3.And(term(bt), z3.Not(null(ch(x, bt))), known(ch(x, bt)), e == IDX(ch(x, bt)))),
                z3.Exists([bt, bc, bj], z3.And(term(bt), below(ch(x, bt), bc, bj), e == F(ch(ch(x, bt), bc), bj))))))
    v.declare('nothing else')
    v.paths(path)


@contract('P16', RG + '_compute_relations', name='relations')
def relations(v):
    """each relation is the matrix computed for it; contained and child are the transposes of contains and father"""
    MOD = 'ieml.dictionary.relation.relations'

    def path(it):
        def matrix(name, transposed=False):
            m = stub_obj(it, 'matrix')
            m.attrs['ghost'] = (name, transposed)
            m.methods = {'transpose': lambda it, o: Stub(lambda it, a, k: matrix(name, not transposed))}
            return m
        for f in ('csr_matrix', 'dok_matrix', 'coo_matrix'):
            it.globals[MOD, f] = Stub(lambda it, a, k: a[0])
        np = stub_obj(it, 'numpy')
        np.methods = {'eye': lambda it, o: Stub(lambda it, a, k: matrix('identity'))}
        it.globals[MOD, 'np'] = np
        d, size = dictionary(it, None, None)
        c = it.ctx.contracts
        c[RG + '_compute_contains'] = lambda it, a, k: matrix('contains')
        c[RG + '_compute_father'] = lambda it, a, k: VList([one(matrix(r)) for r in RELS])
        c[RG + '_compute_siblings'] = lambda it, a, k: VList([one(matrix(r)) for r in ('opposed', 'associated', 'crossed', 'twin')])
        ranked = []

        def ranks(it, a, k):
            ranked.append(a[1])
            return VList([one(matrix('table_%d' % i)) for i in range(6)])
        c[RG + '_compute_table_rank'] = ranks
        r = v.call(it, d)
        if not v.ensure('no exception', r.ok):
            return
        from ieml.constants import RELATIONS
        items = {k: m for k, m in [p.value for p in r.value.parts]}
        v.ensure('all the relations and only them', set(items) == set(RELATIONS) and len(items) == len(r.value.parts))
        expect = {x: (x, False) for x in ('contains', 'opposed', 'associated', 'crossed', 'twin', 'identity') + RELS}
        expect.update({'table_%d' % i: ('table_%d' % i, False) for i in range(6)})
        expect['contained'] = ('contains', True)
        expect.update({'child' + x[len('father'):]: (x, True) for x in RELS})
        for k in items:
            v.ensure('the matrix of each relation', items[k].attrs.get('ghost') == expect.get(k))
        v.ensure('the ranks come from the containing tables', len(ranked) == 1 and ranked[0].attrs['ghost'] == ('contains', True))
    v.trust('scipy: conversions keep a sparse matrix, transpose transposes it')
    v.paths(path)


@contract('P16', RG + 'object', name='objects')
def objects(v):
    """the scripts at the columns of the row of the subject"""
    def path(it):
        row = it.fresh('columns', T.Seq(T.Int))
        asked = []
        s = it.fresh('s', SCRIPT)

        def rows(name):
            def get(i):
                asked.append((name, i))
                return stub_obj(it, 'row', indices=row)
            return mapping(it, get)
        out = []

        def pick(x):
            out.append(it.to_seq(x))
            return stub_obj(it, 'array')
        o = HObj(v.resolve(RG[:-1]), epoch=it.ctx.epoch)
        o.attrs.update(relations=mapping(it, rows), index=mapping(it, lambda s: SInt(IDX(s.z))), scripts=mapping(it, pick))
        r = v.call(it, o, s, 'opposed')
        if not v.ensure('no exception', r.ok and len(out) == 1):
            return
        v.ensure('row of the subject in the matrix of the relation', z3.And(
            len(asked) == 1 and asked[0][0] == 'opposed', zint(asked[0][1]) == IDX(s.z)))
        b = bag(out[0])
        j = z3.Int('oj')
        v.ensure('all its columns', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < row.parts[0].n), some_element(
            it, b, lambda e: zint(e) == zint(at(row, j))))))
        v.ensure('only its columns', for_elements(it, b, lambda e: z3.Exists([j], z3.And(
            j >= 0, j < row.parts[0].n, zint(e) == zint(at(row, j))))))
        need(getattr(out[0], 'sorted_from', None) is not None, 'not sorted')
    v.trust('numpy: an array indexed by a list gives the elements at these places, in order')
    v.paths(path)
