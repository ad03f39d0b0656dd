"""P08: the tables of a script. An array is replaced by its contract: the multiset of its cells, each with its three
coordinates."""
from .common import *
import ieml.dictionary.script.script as SM
from ieml.constants import MAX_SIZE_HEADER

MOD = 'ieml.dictionary.script.script'
f = lambda a, z: SC.z(a, z)
LEN = lambda z: SC.len('singular_sequences', z)
AT = lambda z, i: SC.at('singular_sequences', z, i)
POS = z3.Function('position of', Ref, Ref, z3.IntSort())      # of a singular sequence among those of a script
CH = lambda z, k: SC.at('children', z, z3.IntVal(k) if isinstance(k, int) else k)
PROD = z3.Function('product', Ref, Ref, Ref, Ref)             # P03
SHAPE = z3.Function('shape', Ref, z3.IntSort(), z3.IntSort())
CELL = z3.Function('cell', Ref, z3.IntSort(), z3.IntSort(), z3.IntSort(), Ref)

SC = ObjType('Script', [NullScript, AdditiveScript, MultiplicativeScript], dict(_str=T.Key, cardinal=T.Int, layer=T.Int, paradigm=T.Bool), key=None)
ARRAY = ObjType('Cells', [object], {}, key=None)
DIM = ObjType('Headers of a dimension', [list], dict(scripts=T.Seq(SC)), key=None)
TAB = ObjType('Headers of a table', [list], dict(dims=T.Seq(DIM)), key=None)
DIM.methods['__iter__'] = lambda it, o: Stub(lambda it, a, k: it.getattr(o, 'scripts'))
TAB.methods['__iter__'] = lambda it, o: Stub(lambda it, a, k: it.getattr(o, 'dims'))
SC.attrs.update(headers=T.Seq(TAB), children=T.Seq(SC), singular_sequences=T.Seq(SC), cells=T.Seq(ARRAY), tables_script=T.Seq(SC))


def facts(it):
    """P03, P05: parts of products; the singular sequences of a script are different, as many as the cardinal, singular"""
    x, y, a, b, c = z3.Consts('hx hy ha hb hc', Ref)
    j = z3.Int('hj')
    s = AT(x, j)
    A = it.ctx.assume
    A(z3.ForAll([x], z3.And(LEN(x) >= 1, LEN(x) == f('cardinal', x)), patterns=[LEN(x)]))
    A(z3.ForAll([x, j], z3.Implies(z3.And(j >= 0, j < LEN(x)), z3.And(f('cardinal', s) == 1, LEN(s) == 1, AT(s, 0) == s, POS(x, s) == j,
                                                                    z3.Implies(f('cardinal', x) == 1, s == x))), patterns=[s]))
    p = PROD(a, b, c)
    A(z3.ForAll([a, b, c], z3.And(SC.tag(p) == 2, SC.len('children', p) == 3, CH(p, 0) == a, CH(p, 1) == b, CH(p, 2) == c,
                                  f('cardinal', p) == f('cardinal', a) * f('cardinal', b) * f('cardinal', c)), patterns=[p]))


def is_one(x, s):
    """s is a singular sequence of x"""
    return z3.And(POS(x, s) >= 0, POS(x, s) < LEN(x), AT(x, POS(x, s)) == s)


def within(s, p):
    """P05: s, singular, is one of the singular sequences of the product p"""
    return conj([is_one(CH(p, k), CH(s, k)) for k in range(3)])


def expansion(it, o, cs):
    """P05: the singular sequences of a product are the products of singular sequences of its parts, once each"""
    ss = it.fresh('ss', T.Seq(SC))
    n = ss.parts[0].n
    i = z3.Int('ei')
    IDX = z3.Function('index of the choice', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    e = ss.at(i)
    ks = z3.Ints('e0 e1 e2')
    rng = conj([z3.And(k >= 0, k < LEN(c.z)) for k, c in zip(ks, cs)])
    pos = [POS(c.z, CH(e, k)) for k, c in enumerate(cs)]
    it.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
        conj([is_one(c.z, CH(e, k)) for k, c in enumerate(cs)]), IDX(*pos) == i, SC.tag(e) == 2, SC.len('children', e) == 3, f('cardinal', e) == 1)),
        patterns=[e]))
    w = IDX(*ks)
    it.ctx.assume(z3.ForAll(ks, z3.Implies(rng, z3.And(w >= 0, w < n, conj([CH(ss.at(w), k) == AT(c.z, j) for k, (c, j) in enumerate(zip(cs, ks))]))),
                            patterns=[w]))
    return ss, IDX


def setup(it, v):
    facts(it)

    def make(it, args, kwargs):
        b = bind(lambda substance=None, attribute=None, mode=None, children=None, character=None: 0, args, kwargs)
        cs = [b['substance'], b['attribute'], b['mode']] if b['children'] is None else it.to_seq(b['children']).items()
        need(len(cs) == 3 and b['character'] is None and all(c is not None for c in cs), 'parts')
        zs = [it.as_sym(c).z for c in cs]
        return it.ref(PROD(*zs), SC)
    it.ctx.contracts[SCR + 'MultiplicativeScript'] = make
    np = stub_obj(it, 'np')
    made = []

    def zeros(it, a, k):
        shape = it.to_seq(a[0] if a else k['shape'])
        need((k.get('dtype') or (a[1] if len(a) > 1 else None)) is object, 'dtype')
        arr = stub_obj(it, 'array')
        need(shape.concrete and len(shape.items()) == 3, 'shape')
        shp = [z3.simplify(zint(x)) for x in shape.items()]
        made.append((arr, shp))

        def setitem(it, a, k):
            key = a[0] if isinstance(a[0], tuple) else tuple(it.to_seq(a[0]).items())
            need(len(key) == 3, 'coordinates')
            # None: a new axis, the value is broadcast along the ones left; here an axis of a single place
            key = [0 if x is None and z3.is_int_value(n) and n.as_long() == 1 else x for x, n in zip(key, shp)]
            it.ctx.event('cell', *key, a[1])
        arr.methods = {'__setitem__': lambda it, o: Stub(setitem)}
        return arr

    def array(it, a, k):
        """[[[x], ...]]: rows of one column"""
        l = it.to_seq(a[0])
        rows = []
        for p in l.parts:
            x = p.value
            for _ in range(2):
                x = it.to_seq(x)
                need(x.concrete and len(x.items()) == 1, 'shape of an array')
                x = x.items()[0]
            rows.append(Part(p.vars, p.guard, x, p.n))
        arr = stub_obj(it, 'array')
        made.append((arr, VList(rows)))
        return arr

    def vectorize(it, a, k):
        g = a[0]

        def apply(it, a, k):
            need(isinstance(a[0], SRef), 'array')
            z = a[0].z
            xs = [z3.Int(it.ctx.name('x%d' % d)) for d in range(3)]
            guard = conj([z3.And(x >= 0, x < SHAPE(z, d)) for d, x in enumerate(xs)])
            l = VList([Part(xs, guard, tuple([SInt(x) for x in xs] + [it.ref(CELL(z, *xs), SC)]))])
            return it.call(map_, [Stub(lambda it, a, k: a[0][:3] + (it.call(g, [a[0][3]], {}),)), l], {})
        return Stub(apply)
    np.methods = {'zeros': lambda it, o: Stub(zeros), 'empty': lambda it, o: Stub(zeros), 'array': lambda it, o: Stub(array), 'vectorize': lambda it, o: Stub(vectorize)}
    from pyvc.interp import Builtin
    map_ = map
    it.globals[MOD, 'np'] = np
    return made


def child_cells(it, c):
    """induction: the cells of the tables of a part are singular sequences of it"""
    t, x, y, z = z3.Ints('ct cx cy cz')
    a = SC.at('cells', c, t)
    e = CELL(a, x, y, z)
    it.ctx.assume(z3.ForAll([t, x, y, z], z3.Implies(z3.And(t >= 0, t < SC.len('cells', c), x >= 0, x < SHAPE(a, 0), y >= 0, y < SHAPE(a, 1),
                                                            z >= 0, z < SHAPE(a, 2)), is_one(c, e)), patterns=[e]))


@contract('P08', SCR + 'MultiplicativeScript._compute_cells', name='of a product', timeout=20, total=300)
def product(v):
    """two or three plural parts: one array, with one cell for each choice; headers and tables by the singular sequences of the
    plural parts; one plural part: those of the part, with the other parts put around"""
    def path(it):
        made = setup(it, v)
        cs = [it.fresh('c%d' % k, SC) for k in range(3)]
        plural = [bool(it.ctx.choose(2)) for _ in range(3)]
        if not any(plural):
            return
        for c, b in zip(cs, plural):
            it.ctx.assume(f('cardinal', c.z) > 1 if b else f('cardinal', c.z) == 1)
            it.ctx.assume(LEN(c.z) >= 1)
        o = HObj(MultiplicativeScript, epoch=it.ctx.epoch)
        ss, IDX = expansion(it, o, cs)
        o.attrs.update(children=VList([one(c) for c in cs]), singular_sequences=ss, _str=it.fresh('text', T.Key))
        ks = [k for k in range(3) if plural[k]]
        if len(ks) == 1:
            child_cells(it, cs[ks[0]].z)
        r = v.call(it, o)
        big = z3.Or([f('cardinal', cs[k].z) > MAX_SIZE_HEADER for k in ks])
        if not r.ok:
            v.ensure('refused only above the limit of headers', z3.And(z3.BoolVal(r.raises(ValueError) and len(ks) > 1), big))
            return
        if len(ks) == 1:
            return recursion(it, v, o, cs, ks[0], ss, r.value)
        v.ensure('within the limit of headers', z3.Not(big))
        cells, tables, headers = [it.to_seq(x) for x in r.value]
        need(cells.concrete and len(cells.items()) == 1 and len(made) == 1 and cells.items()[0] is made[0][0], 'one array')
        shape = made[0][1]
        v.ensure('one row, column and tab for each singular sequence of the parts', conj([
            shape[d] == (LEN(cs[ks[d]].z) if d < len(ks) else 1) for d in range(3)]))
        ev = [p for p in it.ctx.trace.parts if p.value[0] == 'cell']
        L = VList([Part(p.vars, p.guard, tuple([SInt(zint(x)) for x in p.value[1:4]] + [p.value[4]])) for p in ev])
        xs = z3.Ints('q0 q1 q2')
        inside = conj([z3.And(x >= 0, x < n) for x, n in zip(xs, shape)])
        i = z3.Int('qi')
        n = ss.parts[0].n
        place = lambda s: conj([x == (POS(cs[ks[d]].z, CH(s, ks[d])) if d < len(ks) else 0) for d, x in enumerate(xs)])
        v.ensure('each singular sequence is written once, in the cell of its choice', for_elements(it, L, lambda e: z3.Exists([i], z3.And(
            i >= 0, i < n, e[3].z == ss.at(i), conj([e[d].z == (POS(cs[ks[d]].z, CH(ss.at(i), ks[d])) if d < len(ks) else 0) for d in range(3)])))))
        v.ensure('and every one is', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), some_element(it, L, lambda e: e[3].z == ss.at(i)))))
        # the choice of a cell
        w = IDX(*[xs[ks.index(k)] if k in ks else z3.IntVal(0) for k in range(3)])
        wit = []
        for p in L.parts:
            if len(p.vars) == 1:
                q = rename(it.ctx, p)
                wit.append(z3.substitute(z3.And(q.guard, conj([q.value[d].z == xs[d] for d in range(3)])), (q.vars[0], w)))
        v.ensure('every cell is written', z3.ForAll(xs, z3.Implies(inside, some_element(it, L, lambda e: conj([e[d].z == xs[d] for d in range(3)])))),
                 strong=z3.Implies(inside, z3.Or(wit)) if wit else None)
        tabs = tables
        nt = length(it, tables)
        v.ensure('as many headers as tables', length(it, headers) == nt)
        v.ensure('one table for each tab', nt == shape[2])

        def header(t, d, j):
            """the script of the header of the tab"""
            parts = [c.z for c in cs]
            parts[ks[d]] = AT(parts[ks[d]], j)
            if len(ks) == 3:
                parts[2] = AT(cs[2].z, t)
            return PROD(*parts)
        if len(ks) == 3:
            need(not tables.concrete and not headers.concrete, 'tables')
            t = z3.Int('tt')
            it_t = [it.to_seq(at(headers, t))]
            rng = z3.And(t >= 0, t < nt)
            script = at(tables, t).z
        else:
            need(tables.concrete and headers.concrete, 'tables')
            v.ensure('the table of the script itself', tables.items()[0] is o)
            t, rng, script = z3.IntVal(0), z3.BoolVal(True), None
            it_t = [it.to_seq(headers.items()[0])]
        h = it_t[0]
        need(h.concrete and len(h.items()) == 2, 'rows and columns')
        j = z3.Int('jj')
        # what the cell at the row, the column and the tab of a singular sequence is in
        s = ss.at(i)
        inr = z3.And(i >= 0, i < n)
        pos = [POS(cs[ks[d]].z, CH(s, ks[d])) if d < len(ks) else z3.IntVal(0) for d in range(3)]
        tab = pos[2]
        for d, name in ((0, 'row'), (1, 'column')):
            hd = it.to_seq(h.items()[d])
            need(not hd.concrete and hd.parts[0].n is not None and len(hd.parts) == 1, 'headers')
            v.ensure('one header for each %s' % name, forall([t] if len(ks) == 3 else [], rng, hd.parts[0].n == shape[d]))
            H = lambda t_, j_: z3.substitute(at(hd, j_).z, (t, t_)) if len(ks) == 3 else at(hd, j_).z
            v.ensure('a cell is in the header of its %s' % name, z3.ForAll([i], z3.Implies(inr, within(s, H(tab, pos[d])))))
            other = z3.And(inr, j >= 0, j < shape[d], t >= 0, t < shape[2], within(s, H(t, j)))
            v.ensure('and of no other %s' % name, z3.ForAll([i, j] + ([t] if len(ks) == 3 else []), z3.Implies(other, j == pos[d])))
        if script is not None:
            v.ensure('and in the script of its tab', z3.ForAll([i], z3.Implies(inr, within(s, z3.substitute(script, (t, tab))))))
            v.ensure('and of no other tab', z3.ForAll([i, t], z3.Implies(z3.And(inr, t >= 0, t < nt, within(s, script)), t == tab)))
    v.declare('a cell is in the header of its row', 'and in the script of its tab', 'every cell is written')
    v.paths(path)


def recursion(it, v, o, cs, k, ss, value):
    """one plural part: its tables, each script being put in the place of the part"""
    cells, tables, headers = [it.to_seq(x) for x in value]
    c = cs[k]
    need(len(cells.parts) == 1 and cells.parts[0].n is not None, 'cells')
    p = cells.parts[0]
    around = lambda z: PROD(*[z if j == k else x.z for j, x in enumerate(cs)])
    n = SC.len('cells', c.z)
    v.ensure('as many arrays as those of the part', p.n == n)
    t, j, d = z3.Ints('rt rj rd')
    rng = z3.And(t >= 0, t < n)
    arr = it.to_seq(at(cells, t))
    need(len(arr.parts) == 1 and len(arr.parts[0].vars) == 3, 'array')
    q = arr.parts[0]
    src = SC.at('cells', c.z, t)
    inside = conj([z3.And(x >= 0, x < SHAPE(src, m)) for m, x in enumerate(q.vars)])
    v.ensure('of the same shape', forall([t] + q.vars, rng, q.guard == inside))
    i = z3.Int('ri')
    e = q.value
    v.ensure('at the same places', forall([t] + q.vars, z3.And(rng, inside), conj([e[m].z == x for m, x in enumerate(q.vars)])))
    v.ensure('each cell is the singular sequence made of the cell of the part', forall([t] + q.vars, z3.And(rng, inside), z3.And(
        CH(e[3].z, k) == CELL(src, *q.vars), conj([CH(e[3].z, m) == AT(x.z, 0) for m, x in enumerate(cs) if m != k]), SC.tag(e[3].z) == 2)))
    v.ensure('which is one of the product', forall([t] + q.vars, z3.And(rng, inside), z3.Exists([i], z3.And(i >= 0, i < ss.parts[0].n, e[3].z == ss.at(i)))))
    need(len(tables.parts) == 1 and tables.parts[0].n is not None and len(headers.parts) == 1 and headers.parts[0].n is not None, 'tables')
    nt, nh = SC.len('tables_script', c.z), SC.len('headers', c.z)
    v.ensure('as many tables', tables.parts[0].n == nt)
    v.ensure('each table is the one of the part, in its place', forall([t], z3.And(t >= 0, t < nt), at(tables, t).z == around(SC.at('tables_script', c.z, t))))
    v.ensure('as many headers', headers.parts[0].n == nh)
    tab = it.to_seq(at(headers, t))
    src = SC.at('headers', c.z, t)
    need(len(tab.parts) == 1 and tab.parts[0].n is not None, 'dimensions')
    nd = TAB.len('dims', src)
    v.ensure('of as many dimensions', forall([t], z3.And(t >= 0, t < nh), tab.parts[0].n == nd))
    dim = it.to_seq(at(tab, d))
    sd = TAB.at('dims', src, d)
    need(len(dim.parts) == 1 and dim.parts[0].n is not None, 'dimension')
    g = z3.And(t >= 0, t < nh, d >= 0, d < nd)
    v.ensure('of as many scripts', forall([t, d], g, dim.parts[0].n == DIM.len('scripts', sd)))
    v.ensure('each header is the one of the part, in its place', forall([t, d, j], z3.And(g, j >= 0, j < DIM.len('scripts', sd)), at(dim, j).z == around(DIM.at('scripts', sd, j))))


@contract('P08', SCR + 'AdditiveScript._compute_cells', name='of a sum', timeout=15)
def of_sum(v):
    """a column of all the singular sequences when a part is not a table by itself; else the tables of the parts, one after the
    other, with their headers"""
    def path(it):
        made = setup(it, v)
        o = HObj(AdditiveScript, epoch=it.ctx.epoch)
        cs = it.fresh('children', T.Seq(SC))
        ss = it.fresh('ss', T.Seq(SC))
        o.attrs.update(children=cs, singular_sequences=ss, _str=it.fresh('text', T.Key))
        r = v.call(it, o)
        v.ensure('accepted', z3.BoolVal(r.ok))
        if not r.ok:
            return
        cells, tables, headers = [it.to_seq(x) for x in r.value]
        n = cs.parts[0].n
        i, j = z3.Ints('si sj')
        column = z3.Exists([i], z3.And(i >= 0, i < n, z3.Not(f('paradigm', cs.at(i)))))
        if made:
            v.ensure('a column only when a part is not a table', column)
            need(len(made) == 1 and isinstance(made[0][1], VList), 'array')
            v.ensure('one array', z3.BoolVal(cells.concrete and len(cells.items()) == 1 and cells.items()[0] is made[0][0]))
            rows = made[0][1]
            v.ensure('one row for each singular sequence', length(it, rows) == ss.parts[0].n)
            v.ensure('in their order', forall([j], z3.And(j >= 0, j < ss.parts[0].n), at(rows, j).z == ss.at(j)))
            v.ensure('the table is the script', z3.BoolVal(tables.concrete and len(tables.items()) == 1 and tables.items()[0] is o))
            need(headers.concrete and len(headers.items()) == 1, 'headers')
            h = it.to_seq(headers.items()[0])
            need(h.concrete and len(h.items()) == 1, 'headers')
            h = it.to_seq(h.items()[0])
            v.ensure('with one header, itself', z3.BoolVal(h.concrete and len(h.items()) == 1 and h.items()[0] is o))
            return
        v.ensure('otherwise a column', z3.Not(column))
        for l, attr, name in ((cells, 'cells', 'arrays'), (tables, 'tables_script', 'scripts of tables'), (headers, 'headers', 'headers')):
            same_concatenation(it, v, l, cs, attr, name)
    v.declare('one row for each singular sequence', 'otherwise a column')
    v.paths(path)


def same_concatenation(it, v, l, cs, attr, name):
    """l: the elements of the attribute of each part, in order, part after part"""
    need(len(l.parts) == 1 and len(l.parts[0].vars) == 2, 'concatenation')
    p = l.parts[0]
    a, b = p.vars
    n = cs.parts[0].n
    v.ensure('%s: of each part and only of them' % name, forall([a, b], z3.BoolVal(True), p.guard == z3.And(
        a >= 0, a < n, b >= 0, b < SC.len(attr, cs.at(a)))))
    v.ensure('%s: in order' % name, forall([a, b], p.guard, p.value.z == SC.at(attr, cs.at(a), b)))


@contract('P08', MOD + ':Script._build_tables', name='build', timeout=10)
def build(v):
    """a singular script is its own table; the tables of the others are the ones computed"""
    def path(it):
        made = setup(it, v)
        kind = [AdditiveScript, MultiplicativeScript][it.ctx.choose(2)]
        o = HObj(kind, epoch=it.ctx.epoch)
        card = it.fresh('cardinal', T.Int)
        it.ctx.assume(card.z >= 1)
        ws = [it.fresh(n, T.Seq(t)) for n, t in (('cells', ARRAY), ('tables', SC), ('headers', TAB))]
        o.attrs.update(cardinal=card, _str=it.fresh('text', T.Key), _cells=None, _tables_script=None, _headers=None)
        it.ctx.contracts[SCR + kind.__name__ + '._compute_cells'] = lambda it, a, k: tuple(ws)
        which = it.ctx.choose(3)
        attr = ['cells', 'tables_script', 'headers'][which]
        if it.ctx.choose(2):
            o.attrs['_' + attr] = ws[0]
            r = v.call(it, o, target=MOD + ':Script.' + attr)
            v.ensure('built only once', z3.BoolVal(r.ok and r.value is ws[0]))
            return
        r = v.call(it, o, target=MOD + ':Script.' + attr)
        v.ensure('accepted', z3.BoolVal(r.ok))
        if not r.ok:
            return
        got = [it.to_seq(o.attrs['_' + n]) for n in ('cells', 'tables_script', 'headers')]
        v.ensure('what is read is what is kept', z3.BoolVal(r.value is o.attrs['_' + attr]))
        if made:
            v.ensure('a single cell only for a singular script', card.z == 1)
            rows = made[0][1]
            v.ensure('its only cell is itself', z3.BoolVal(len(made) == 1 and rows.concrete and len(rows.items()) == 1 and rows.items()[0] is o
                                                           and got[0].concrete and len(got[0].items()) == 1 and got[0].items()[0] is made[0][0]))
            v.ensure('its only table is itself', z3.BoolVal(got[1].concrete and len(got[1].items()) == 1 and got[1].items()[0] is o))
            v.ensure('it has no header', z3.BoolVal(got[2].concrete and not got[2].items()))
            return
        v.ensure('otherwise a single cell', card.z != 1)
        i = z3.Int('bi')
        for l, w, name in zip(got, ws, ('arrays', 'scripts of tables', 'headers')):
            v.ensure('as many %s as computed' % name, length(it, l) == w.parts[0].n)
            v.ensure('the %s computed' % name, forall([i], z3.And(i >= 0, i < w.parts[0].n), at(l, i).z == w.at(i)))
    v.declare('its only cell is itself', 'otherwise a single cell')
    v.paths(path)
