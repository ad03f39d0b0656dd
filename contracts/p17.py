"""P17: roots, tables and their ranks."""
from .uslcommon import *
from ieml.dictionary.table.table import Table, Table1D, Table2D, Table3D, TableSet, Cell

TM = 'ieml.dictionary.table.table:'
TS = 'ieml.dictionary.table.table_structure:TableStructure.'
KINDS = [Table1D, Table2D, TableSet, Table3D, Cell]
PARENT = ObjType('Table', KINDS, dict(k=T.Key, rank=T.Int), key=None)
PARENT.attrs['script'] = T.Obj(SCRIPT)
SET_TAGS = [i for i, c in enumerate(KINDS) if issubclass(c, TableSet)]
K = lambda z: SCRIPT.z('_str', z)
IN = z3.Function('is contained in', Ref, Ref, z3.BoolSort())


def is_set(p):
    return z3.Or([PARENT.tag(p.z) == i for i in SET_TAGS])


@contract('P17', TM + 'Table.rank', name='rank')
def rank(v):
    for cls in KINDS:
        def path(it):
            o = HObj(cls, epoch=it.ctx.epoch)
            p = it.fresh('parent', PARENT) if it.ctx.choose(2) else None
            reg = it.fresh('regular', T.Bool)
            o.attrs.update(script=it.fresh('s', SCRIPT), parent=p, regular=reg)
            try:
                r = zint(it.getattr(o, 'rank'))
            except Raised:
                v.ensure('no exception', False)
                return
            if cls is Cell:
                v.ensure('the rank of a cell is 6', r == 6)
                return
            if p is None:
                v.ensure('the rank of a root is 0', r == 0)
                return
            q = PARENT.z('rank', p.z)
            base = z3.If(q < 1, z3.IntVal(1), q)
            v.ensure('in a set of tables, that of the set, at least 1', z3.Implies(is_set(p), r == base))
            v.ensure('regular, 2 above its parent', z3.Implies(z3.And(z3.Not(is_set(p)), reg.z), r == base + 2))
            v.ensure('not regular, 1 above its parent', z3.Implies(z3.And(z3.Not(is_set(p)), z3.Not(reg.z)), r == base + 1))
        v.paths(path, prefix=cls.__name__ + ': ')


COORD = ObjType('Coordinate', [tuple], dict(i=T.Int), key=None)
COORD.fields = ['i']
ROW = z3.Function('row in the table', Ref, Ref, z3.IntSort())


def contained(v):
    v.use(SCR + 'Script.__contains__', lambda it, a, k: SBool(IN(a[1].z, a[0].z)) if isinstance(a[1], SRef) else False)


def verdict(it, r):
    a = it.to_seq(r.value).items()
    need(len(a) == 2, 'answer')
    return zbool(it, a[0]), zbool(it, a[1])


@contract('P17', TM + 'Table1D.accept_script', name='one dimension', timeout=20)
def one_dimension(v):
    """accepted, regularly, iff contained and its cells are consecutive"""
    contained(v)

    def path(it):
        s, me = it.fresh('s', SCRIPT), it.fresh('me', SCRIPT)
        it.box_types = [COORD]
        lt = it.type_lt(COORD)
        x, y = z3.Const('bx', Ref), z3.Const('by', Ref)
        it.ctx.assume(z3.ForAll([x, y], lt(x, y) == (COORD.z('i', x) < COORD.z('i', y)), patterns=[lt(x, y)]))
        n = SCRIPT.len('singular_sequences', s.z)
        it.ctx.assume(n >= 1)
        o = HObj(Table1D, epoch=it.ctx.epoch)
        o.attrs.update(script=me, parent=None, regular=False, _index=None)
        it.ctx.contracts[TM + 'Table1D.index_of'] = lambda it, a, k: (SInt(ROW(a[0].attrs['script'].z, a[1].z)),)
        r = v.call(it, o, s)
        if not v.ensure('no exception', r.ok):
            return
        acc, reg = verdict(it, r)
        R = lambda j: ROW(me.z, SCRIPT.at('singular_sequences', s.z, j))
        j = z3.Int('rj')
        inr = lambda j: z3.And(j >= 0, j < n)
        lo, hi = [it.ctx.fresh(x, z3.IntSort()) for x in ('lo', 'hi')]
        it.ctx.assume(z3.ForAll([j], z3.Implies(inr(j), z3.And(R(j) >= lo, R(j) <= hi)), patterns=[R(j)]))
        a, b = [it.ctx.fresh(x, z3.IntSort()) for x in 'ab']
        it.ctx.assume(z3.And(inr(a), inr(b), R(a) == lo, R(b) == hi))      # lo and hi are the first and last rows
        v.ensure('accepted iff contained and consecutive', acc == z3.And(IN(s.z, me.z), n == hi - lo + 1))
        v.ensure('always regularly', reg == acc)
    v.paths(path)


@contract('P17', TM + 'TableSet.accept_script', name='set of tables', timeout=20)
def set_of_tables(v):
    """accepted, not regularly, iff it is a union of tables of a set which is not itself in a set"""
    contained(v)
    SCRIPT.attrs['tables_script'] = T.Seq(SCRIPT)
    for cls in (TableSet, Table3D):
        def path(it):
            s, me = it.fresh('s', SCRIPT), it.fresh('me', SCRIPT)
            p = it.fresh('parent', PARENT) if it.ctx.choose(2) else None
            o = HObj(cls, epoch=it.ctx.epoch)
            o.attrs.update(script=me, parent=p, regular=False)
            r = v.call(it, o, s)
            if not v.ensure('no exception', r.ok):
                return
            acc, reg = verdict(it, r)
            i, j, k = z3.Ints('ti tj tk')
            nt, ns = SCRIPT.len('tables_script', me.z), lambda z: SCRIPT.len('singular_sequences', z)
            tab = lambda i: SCRIPT.at('tables_script', me.z, i)
            ss = lambda z, j: SCRIPT.at('singular_sequences', z, j)
            used = lambda i: z3.And(i >= 0, i < nt, IN(tab(i), s.z))
            some = z3.Exists([i], used(i))
            cover = z3.And(
                z3.ForAll([i, j], z3.Implies(z3.And(used(i), j >= 0, j < ns(tab(i))), z3.Exists([k], z3.And(
                    k >= 0, k < ns(s.z), K(ss(s.z, k)) == K(ss(tab(i), j)))))),
                z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ns(s.z)), z3.Exists([i, j], z3.And(
                    used(i), j >= 0, j < ns(tab(i)), K(ss(s.z, k)) == K(ss(tab(i), j)))))))
            free = z3.BoolVal(True) if p is None else z3.Not(is_set(p))
            v.ensure('accepted iff a union of its tables', acc == z3.And(free, some, cover))
            v.ensure('never regularly', z3.Not(reg))
        v.paths(path, prefix=cls.__name__ + ': ')


from pyvc.interp import ContinueX   # noqa
from .p16 import fix   # noqa


def is_table(x):
    return isinstance(x, SRef) and x.typ is PARENT


ACC = z3.Function('accepts', Ref, Ref, z3.BoolSort())
REG = z3.Function('accepts regularly', Ref, Ref, z3.BoolSort())


CANDIDATE = ObjType('Candidate', [tuple], dict(table=T.Obj(PARENT), regular=T.Bool), key=None)
CANDIDATE.fields = ['table', 'regular']


@contract('P17', TS + '_define_root', name='placing of a paradigm', timeout=20)
def placing(v):
    """for any tables already placed, a paradigm goes under the least one which accepts it, or nowhere if none does; it is
    then itself a table where others may go. The paradigms are all those given but the root"""
    script_order(v)
    PARENT.methods['__str__'] = lambda it, o: Stub(lambda it, a, k: 'a table')
    PARENT.methods['accept_script'] = lambda it, o: Stub(lambda it, a, k: (SBool(ACC(o.z, a[0].z)), SBool(REG(o.z, a[0].z))))

    def path(it):
        it.box_types = [CANDIDATE]
        root = it.fresh('root', SCRIPT)
        par = it.fresh('paradigms', T.Seq(SCRIPT))
        made = []

        def table_class(it, a, k):
            of = a[0]

            def build(it, a, k):
                b = bind(lambda script, parent, regular=False: 0, a, k)
                t = it.fresh('table', PARENT)
                for x in made:
                    it.ctx.assume(t.z != x[0].z)
                it.ctx.assume(PARENT.z('script', t.z) == b['script'].z)
                made.append((t, of, b['script'], b['parent'], b['regular']))
                return t
            return Stub(build)
        MOD = 'ieml.dictionary.table.table_structure'
        it.globals[MOD, 'table_class'] = Stub(table_class)
        it.globals[MOD, 'Cell'] = Stub(lambda it, a, k: tuple(bind(lambda script, parent: 0, a, k).values()))
        log = stub_obj(it, 'logger')
        log.methods = {n: (lambda it, o: Stub(lambda it, a, k: None)) for n in ('info', 'debug', 'warning', 'error')}
        it.globals[MOD, 'logger'] = log
        D = it.fresh('placed', T.Seq(PARENT))
        state = {}

        def hook(it, st, env, q, ordered):
            """any iteration, from any set of tables already placed"""
            import ast
            if not (isinstance(q.value, SRef) and q.value.typ is SCRIPT) or \
                    not any(isinstance(x, ast.Attribute) and x.attr == 'accept_script' for x in ast.walk(st)):
                return False
            need(made and not state, 'root table')
            sets = {n: x for n, x in env.vars.items() if isinstance(x, VSet) and x.parts and all(
                is_table(p.value) for p in x.parts)}
            state['sets'] = list(sets.values())
            state['given'] = VList([q])
            keep = dict(env.vars)
            del made[1:]
            s = it.fresh('s', SCRIPT)
            for n in sets:
                env.vars[n] = VSet(list(D.parts), epoch=it.ctx.epoch)
            now = {n: env.vars[n] for n in sets}
            it.loop_hook = None
            try:
                it.assign(st.target, s, env)
                it.block(st.body, env)
            except ContinueX:
                pass
            except Raised:
                v.ensure('a paradigm is placed without exception', False)
                return True
            check(it, s, now, made[1:])
            env.vars = keep
            it.loop_hook = hook
            return True

        def check(it, s, now, new):
            i = z3.Int('pi')
            n = D.parts[0].n
            d = lambda i: at(D, i).z
            inr = z3.And(i >= 0, i < n)
            added = [[p.value for p in x.parts[len(D.parts):]] for x in now.values()]
            if not any(added):
                v.ensure('not placed only when no table accepts it', z3.ForAll([i], z3.Implies(inr, z3.Not(ACC(d(i), s.z)))))
                return
            if not v.ensure('placed once', len(new) == 1 and all(len(x) == 1 and x[0] is new[0][0] for x in added)):
                return
            t, of, script, parent, regular = new[0]
            v.ensure('table of the paradigm', z3.And(script.z == s.z, of.z == s.z))
            if not v.ensure('it has a parent', isinstance(parent, SRef)):
                return
            p = parent.z
            lt = it.type_lt(SCRIPT)
            v.ensure('its parent accepts it', z3.And(z3.Exists([i], z3.And(inr, d(i) == p)), ACC(p, s.z)))
            v.ensure('regular as its parent says', zbool(it, regular) == REG(p, s.z))
            v.ensure('no lesser table accepts it', z3.ForAll([i], z3.Implies(z3.And(inr, ACC(d(i), s.z)), z3.Not(
                lt(PARENT.z('script', d(i)), PARENT.z('script', p))))))
        it.loop_hook = hook
        r = v.call(it, root, par)
        it.loop_hook = None
        if not v.ensure('no exception', r.ok):
            return
        need(state, 'loop of the paradigms')
        t, of, script, parent, regular = made[0]
        v.ensure('the root has the table of the root', z3.And(parent is None, script.z == root.z, of.z == root.z))
        tables, cells = it.to_seq(r.value).items()
        v.ensure('the tables placed are those returned', isinstance(tables, VSet) and any(tables is x for x in state['sets']) and
                 len(tables.parts) == 1 and tables.parts[0].value is t)
        v.ensure('each singular sequence has a cell', len(cells.parts) == 1 and cells.parts[0].n is not None)
        p = fix(it, cells.parts[0])
        script, parent = p.value
        v.ensure('a cell of the root', z3.Implies(p.guard, z3.And(
            parent.z == t.z, script.z == SCRIPT.at('singular_sequences', root.z, p.vars[0]))))
        v.ensure('one for each', cells.parts[0].n == SCRIPT.len('singular_sequences', root.z))
        g = bag(state['given'])
        key = lambda e: K(e.z) != K(root.z)
        v.ensure('the root is not placed under itself', for_elements(it, g, key))
        i = z3.Int('pi')
        P = lambda i: at(par, i)
        inr = z3.And(i >= 0, i < par.parts[0].n)
        v.ensure('every other paradigm is considered', z3.ForAll([i], z3.Implies(z3.And(inr, key(P(i))), some_element(
            it, g, lambda e: K(e.z) == K(P(i).z)))))
        q = state['given'].parts[0]
        need(q.n is not None, 'order of the paradigms')
        e = lambda i: v_subst(q.value, [(q.vars[0], i)]).z
        a, b = z3.Const('ca', Ref), z3.Const('cb', Ref)
        strict = lambda a, b: z3.And(IN(a, b), z3.Not(IN(b, a)))
        it.ctx.assume(z3.ForAll([a, b], z3.Implies(strict(a, b), SCRIPT.z('cardinal', a) < SCRIPT.z('cardinal', b)), patterns=[IN(a, b)]))
        i1, i2 = [it.ctx.fresh(x, z3.IntSort()) for x in ('i', 'j')]
        v.ensure('the paradigms which contain it are considered before', z3.Implies(
            z3.And(i1 >= 0, i1 < i2, i2 < q.n), z3.Not(strict(e(i1), e(i2)))))
        v.ensure('and nothing else', for_elements(it, g, lambda e: z3.Exists([i], z3.And(inr, K(e.z) == K(P(i).z)))))
    v.paths(path)


ROOT_OF, TABLE_OF = z3.Function('root of', Ref, Ref), z3.Function('table of', Ref, Ref)
KNOWN, PLACED = z3.Function('has a table', Ref, z3.BoolSort()), z3.Function('has a root', Ref, z3.BoolSort())


@contract('P17', TS + 'root', name='root of a script')
def root_of(v):
    def path(it):
        def mapping(known, get):
            def f(it, a, k):
                if not it.ctx.branch(known(a[0].z)):
                    raise Raised(ExcVal(KeyError, (a[0],)))
                return get(a[0].z)
            o = stub_obj(it, 'mapping')
            o.methods = {'__getitem__': lambda it, _: Stub(f), '__contains__': lambda it, _: Stub(
                lambda it, a, k: SBool(known(a[0].z)))}
            return o
        it.globals['ieml.dictionary.table.table_structure', 'error'] = Stub(lambda it, a, k: None)
        o = HObj(v.resolve(TS[:-1]), epoch=it.ctx.epoch)
        o.attrs.update(tables=mapping(KNOWN, lambda z: SRef(TABLE_OF(z), PARENT)),
                       table_to_root=mapping(PLACED, lambda z: SRef(ROOT_OF(z), SCRIPT)))
        s = it.fresh('s', SCRIPT)
        r = v.call(it, o, s)
        ok = z3.And(KNOWN(s.z), PLACED(TABLE_OF(s.z)))
        if r.ok:
            v.ensure('the root of its table', z3.And(ok, r.value.z == ROOT_OF(TABLE_OF(s.z))))
        else:
            v.ensure('refused with KeyError when it has no table', z3.And(r.raises(KeyError), z3.Not(ok)))
    v.declare('the root of its table', 'refused with KeyError when it has no table')
    v.paths(path)


@contract('P17', TS + '__init__', name='roots of the tables')
def roots_of_tables(v):
    def path(it):
        roots = [(it.fresh('root%d' % i, SCRIPT), it.fresh('tables%d' % i, T.Seq(PARENT))) for i in range(it.ctx.choose(3))]
        for i, a in enumerate(roots):
            for b in roots[i + 1:]:
                it.ctx.assume(K(a[0].z) != K(b[0].z))
                x, y = z3.Ints('rx ry')
                it.ctx.assume(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < a[1].parts[0].n, y >= 0, y < b[1].parts[0].n),
                                                           a[1].at(x) != b[1].at(y))))
        d = VDict([one(x) for x in roots], epoch=it.ctx.epoch)
        tabs = stub_obj(it, 'tables')
        given = []

        def build(it, a, k):
            given.append(bind(lambda root_scripts, scripts: 0, a, k))
            return (tabs, d)
        it.ctx.contracts[TS + '_build_tables'] = build
        o = HObj(v.resolve(TS[:-1]), epoch=it.ctx.epoch)
        sc, ro = it.fresh('scripts', T.Seq(SCRIPT)), it.fresh('given roots', T.Seq(SCRIPT))
        r = v.call(it, o, sc, ro)
        if not v.ensure('no exception', r.ok and len(given) == 1):
            return
        v.ensure('built from the roots and scripts given', given[0]['root_scripts'] is ro and given[0]['scripts'] is sc and
                 o.attrs['tables'] is tabs and o.attrs['roots'] is d)
        for root, l in roots:
            i = it.ctx.fresh('i', z3.IntSort())
            it.ctx.assume(z3.And(i >= 0, i < l.parts[0].n))
            t = at(l, i)
            m = o.attrs['table_to_root']
            v.ensure('each table is of its root', z3.And(
                some_element(it, VList(m.parts), lambda e: z3.And(e[0].z == t.z, e[1].z == root.z)),
                for_elements(it, VList(m.parts), lambda e: z3.Implies(e[0].z == t.z, e[1].z == root.z))))
    v.paths(path)


@contract('P17', TM + 'Table2D.accept_script', name='two dimensions')
def two_dimensions(v):
    """with the contracts of the two tests on coordinates (checked on all the subsets of small tables): accepted iff contained,
    in a table of rank 0 or odd, spanning all rows or columns or a block; regular iff it spans in one row or column"""
    contained(v)
    IN2 = TM + 'Table2D.accept_script.<locals>.'

    def path(it):
        s, me = it.fresh('s', SCRIPT), it.fresh('me', SCRIPT)
        it.box_types = [PLACE]
        dim, count, block, rk = it.fresh('dim', T.Bool), it.fresh('count', T.Int), it.fresh('block', T.Bool), it.fresh('rank', T.Int)
        it.ctx.assume(z3.And(rk.z >= 0, rk.z <= 5))
        it.ctx.assume(z3.Implies(dim.z, count.z >= 1))
        asked = []

        def tile(it, a, k):
            asked.append(a[0])
            return block

        def span(it, a, k):
            asked.append(a[0])
            return (dim, SInt(z3.If(dim.z, count.z, z3.IntVal(0))))
        it.ctx.taint('contract of a local function')
        it.ctx.contracts[IN2 + 'is_connexe_tilling'] = tile
        it.ctx.contracts[IN2 + 'is_dim_subset'] = span
        it.ctx.contracts[TM + 'Table2D.index_of'] = lambda it, a, k: (SInt(ROW(a[0].attrs['script'].z, a[1].z)), SInt(COL(a[0].attrs['script'].z, a[1].z)))
        it.ctx.contracts[TM + 'Table.rank'] = lambda it, a, k: rk
        o = HObj(Table2D, epoch=it.ctx.epoch)
        o.attrs.update(script=me, parent=None, regular=False, _index=None)
        r = v.call(it, o, s)
        if not v.ensure('no exception', r.ok):
            return
        acc, reg = verdict(it, r)
        can = z3.And(IN(s.z, me.z), z3.Or(rk.z == 0, rk.z % 2 == 1))
        v.ensure('accepted', acc == z3.And(can, z3.Or(dim.z, block.z)))
        v.ensure('regularly', reg == z3.And(can, dim.z, count.z == 1))
        j = z3.Int('aj')
        n = SCRIPT.len('singular_sequences', s.z)
        q = lambda j: SCRIPT.at('singular_sequences', s.z, j)
        same = lambda e, j: z3.And(PLACE.z('row', e.z) == ROW(me.z, q(j)), PLACE.z('column', e.z) == COL(me.z, q(j)))
        inr = z3.And(j >= 0, j < n)
        for l in asked:
            b = bag(it.to_seq(l))
            v.ensure('at the places of its singular sequences', z3.And(
                z3.ForAll([j], z3.Implies(inr, some_element(it, b, lambda e: same(e, j)))),
                for_elements(it, b, lambda e: z3.Exists([j], z3.And(inr, same(e, j))))))
    v.assume_note('is_connexe_tilling: not proved; checked (bounded) on all the subsets of the cells of tables up to 3x4 and on blocks up to 6x6')
    v.paths(path)


class Enough(Exception):
    """the rest of the call is of no interest"""


@contract('P17', TM + 'Table2D.accept_script', name='spanning a dimension')
def spanning(v):
    contained(v)
    IN2 = TM + 'Table2D.accept_script.<locals>.'

    def path(it):
        coords = it.fresh('coords', T.Seq(PLACE))
        it.ctx.assume(coords.parts[0].n >= 1)
        h, w = it.fresh('height', T.Int), it.fresh('width', T.Int)
        it.ctx.assume(z3.And(h.z >= 2, w.z >= 2))
        got = []

        def run(it, a, k):
            it.ctx.contracts[TM + 'Table2D.shape'] = lambda it, a, k: (h, w)
            got.append(it.call_ifunc(it.called, [coords], {}))
            raise Enough()
        it.ctx.contracts[IN2 + 'is_dim_subset'] = run
        it.ctx.contracts[TM + 'Table2D.index_of'] = lambda it, a, k: (SInt(ROW(a[0].attrs['script'].z, a[1].z)), SInt(COL(a[0].attrs['script'].z, a[1].z)))
        it.ctx.contracts[TM + 'Table.rank'] = lambda it, a, k: 0
        it.box_types = [PLACE]
        o = HObj(Table2D, epoch=it.ctx.epoch)
        me, s = it.fresh('me', SCRIPT), it.fresh('s', SCRIPT)
        it.ctx.assume(IN(s.z, me.z))
        o.attrs.update(script=me, parent=None, regular=False, _index=None)
        try:
            v.call(it, o, s)
        except Enough:
            pass
        need(len(got) == 1, 'test of the dimensions')
        dim, count = it.to_seq(got[0]).items()
        n = [length(it, VSet([Part(p.vars, p.guard, it.getattr(p.value, f), p.n) for p in coords.parts])) for f in PLACE.fields]
        rows, cols = n[0] == h.z, n[1] == w.z
        v.ensure('it has cells in all the rows or in all the columns', zbool(it, dim) == z3.Or(rows, cols))
        v.ensure('in one column of all the rows or one row of all the columns', z3.Implies(
            z3.Or(rows, cols), (zint(count) == 1) == z3.Or(z3.And(rows, n[1] == 1), z3.And(cols, n[0] == 1))))
    v.paths(path)


PLACE = ObjType('Place', [tuple], dict(row=T.Int, column=T.Int), key=None)
PLACE.fields = ['row', 'column']
COL = z3.Function('column in the table', Ref, Ref, z3.IntSort())
