"""Bounded cases on dictionaries (P16, P17, P22).

A dictionary recipe is {'roots': [[recipe, [inhibited relations]], ...], 'paradigms': [recipe, ...],
'rows': [[index of paradigm, key, value], ...], 'shuffle': int}."""
import itertools
import random

import pandas as pd

from . import ref as R, gen
from .core import case, generator, check, equal, Violation, raises
from .cases_script import build, table_ref, disjoint
from ieml.constants import RELATIONS
from ieml.dictionary.script import script
from ieml.dictionary.dictionary import Dictionary
from ieml.dictionary.table.table import Table2D

SIBLINGS = ['opposed', 'associated', 'crossed', 'twin']


class _Structure:
    def __init__(self, rows):
        self.df = pd.DataFrame(rows, columns=['ieml', 'key', 'value']).set_index(['ieml', 'key'])


def rows_of(spec):
    res = []
    for r, inh in spec['roots']:
        res.append((R.ref(r).text, 'is_root', 'True'))
        res += [(R.ref(r).text, 'inhibition', k) for k in inh]
    for i, k, v in spec.get('rows', []):
        res.append((R.ref(spec['paradigms'][i]).text, k, v))
    return res


def ignored(spec):
    return {R.ref(spec['paradigms'][i]) for i, k, v in spec.get('rows', []) if k == 'is_ignored' and v.lower() == 'true'}


def texts_of(spec):
    res = []
    for t in [R.ref(r).text for r, _ in spec['roots']] + [R.ref(r).text for r in spec['paradigms']]:
        if t not in res:
            res.append(t)
    return res


def make(spec, shuffle=None):
    texts, rows = texts_of(spec), rows_of(spec)
    if shuffle is not None:
        rng = random.Random(shuffle)
        rng.shuffle(texts)
        rng.shuffle(rows)
    return Dictionary(texts, _Structure(rows))


def usable(spec):
    """roots and paradigms of the domain: no sum counts a sequence twice, the tables exist, no sequence is empty (above
    layer 0), roots are disjoint, no two listed paradigms have the same sequences"""
    xs = [R.ref(r) for r, _ in spec['roots']] + [R.ref(r) for r in spec['paradigms']]
    seen = {}
    for x in xs:
        if not disjoint(x) or table_ref(x) is None or (x.layer and any(q.empty for q in x.ss)):
            return False
        if seen.setdefault(frozenset(x.ss), x.text) != x.text:
            return False
    roots = [R.ref(r) for r, _ in spec['roots']]
    return all(not (set(a.ss) & set(b.ss)) for a, b in itertools.combinations(roots, 2)) and \
        len({x.text for x in roots}) == len(roots)


# ------------------------------------------------------------------ reference table structure
class T:
    def __init__(self, x, parent, regular):
        self.x, self.parent, self.regular = x, parent, regular
        tabs = table_ref(x)
        if x.card == 1:
            self.kind = 'cell'
        elif len(tabs) > 1:
            self.kind = 'set'
            self.tables = [t for t, _, _, _ in tabs]
        else:
            self.coord = tabs[0][3]
            self.shape = tuple(max(c[i] for c in self.coord.values()) + 1 for i in range(2))
            self.kind = '2d' if self.shape[0] > 1 and self.shape[1] > 1 else '1d'

    @property
    def rank(self):
        if self.kind == 'cell':
            return 6
        if self.parent is None:
            return 0
        p = max(self.parent.rank, 1)
        if self.parent.kind == 'set':
            return p
        return p + 2 if self.regular else p + 1

    def accept(self, s):
        """None, or whether it is a regular place"""
        if self.kind == 'set':
            if self.parent is not None and self.parent.kind == 'set':
                return None
            got = [t for t in self.tables if set(t.ss) <= set(s.ss)]
            return False if got and {q for t in got for q in t.ss} == set(s.ss) else None
        if not set(s.ss) <= set(self.x.ss):
            return None
        c = [self.coord[q] for q in s.ss]
        if self.kind == '1d':
            axis = 0 if self.shape[0] > 1 else 1
            v = sorted(q[axis] for q in c)
            return True if v[-1] - v[0] + 1 == len(v) else None
        if self.rank != 0 and self.rank % 2 == 0:
            return None
        n = [len({q[i] for q in c}) for i in range(2)]
        # spans all rows or all columns
        if n[0] == self.shape[0]:
            return n[1] == 1
        if n[1] == self.shape[1]:
            return n[0] == 1
        # a block, of at least two rows and two columns, connected (on the torus) or periodic
        if len(c) != n[0] * n[1] or min(n) < 2:
            return None
        for i in range(2):
            inside = {q[i] for q in c}
            size = self.shape[i]
            edges = [j for j in range(size) if j not in inside and (j + 1) % size in inside]
            if len(edges) > 1:
                step = size // len(edges)
                if any((j + step) % size not in edges for j in edges):
                    return None
        return False


def ref_tables(spec):
    """{root: {script: T}} of the reference"""
    roots = [R.ref(r) for r, _ in spec['roots']]
    listed = ({R.ref(r) for r in spec['paradigms']} - ignored(spec)) | set(roots)
    res = {}
    for root in roots:
        t0 = T(root, None, False)
        res[root] = {root: t0}
        if root.card > 1:
            todo = [x for x in listed if x.card > 1 and x != root and set(x.ss) <= set(root.ss) and
                    x.layer == root.layer]
            for x in sorted(todo, key=lambda x: -x.card):
                cand = []
                for t in res[root].values():
                    if t.x.card > x.card:
                        a = t.accept(x)
                        if a is not None:
                            cand.append((t, a))
                if cand:
                    best = R.sort([t.x for t, _ in cand])[0]
                    t, a = [c for c in cand if c[0].x == best][0]
                    res[root][x] = T(x, t, a)
            for q in root.ss:
                res[root][q] = T(q, t0, False)
    return res


def too_deep(tabs):
    return any(t.kind != 'cell' and t.rank > 5 for d in tabs.values() for t in d.values())


# ------------------------------------------------------------------ P16
def ref_relations(spec, D, tabs):
    """{relation: set of pairs of texts} from the definitions; D: the scripts of the dictionary, by text"""
    rel = {k: set() for k in RELATIONS}
    root_of = {q.text: root for root, d in tabs.items() for q in d}
    sets = {t: frozenset(x.ss) for t, x in D.items()}
    for a in D:
        rel['identity'].add((a, a))
        for b in D:
            if D[a].layer == D[b].layer and sets[b] <= sets[a]:
                rel['contains'].add((a, b))
                rel['contained'].add((b, a))

    def fathers(x):
        res = []
        for t in (x.parts if x.kind == 'a' else [x]):
            if t.kind == 'n':
                continue
            if t.text in D:
                res.append(t.text)
            else:
                for p in t.parts:
                    res += fathers(p)
        return res

    for a, x in D.items():
        for t in (x.parts if x.kind == 'a' else [x]):
            if t.kind != 'm':
                continue
            for i, n in enumerate(['substance', 'attribute', 'mode']):
                for f in fathers(t.parts[i]):
                    rel['father_' + n].add((a, f))
                    rel['child_' + n].add((f, a))

    def opposed(x, y):
        return x.kind == 'm' and y.kind == 'm' and x.card == y.card and \
            x.parts[0] == y.parts[1] and x.parts[1] == y.parts[0]

    inhibited = {R.ref(r): set(i) for r, i in spec['roots']}
    for root, d in tabs.items():
        prods = [x for x in d if x.kind == 'm']
        for x, y in itertools.permutations(prods, 2):
            if x.card != y.card:
                continue
            if opposed(x, y):
                k = 'opposed'
                if k not in inhibited[root]:
                    rel[k].add((x.text, y.text))
            if x.parts[0] == y.parts[0] and x.parts[1] == y.parts[1] and x.parts[2] != y.parts[2] and \
                    'associated' not in inhibited[root]:
                rel['associated'].add((x.text, y.text))
            if x.layer >= 2 and opposed(x.parts[0], y.parts[0]) and opposed(x.parts[1], y.parts[1]) and \
                    'crossed' not in inhibited[root]:
                rel['crossed'].add((x.text, y.text))
            if x.parts[0] == x.parts[1] and y.parts[0] == y.parts[1] and 'twin' not in inhibited[root]:
                rel['twin'].add((x.text, y.text))
        for x, y in itertools.product(d, repeat=2):
            for u, t in d.items():
                if t.rank != 6 and sets[x.text] <= sets[u.text] and sets[y.text] <= sets[u.text]:
                    rel['table_%d' % t.rank].add((x.text, y.text))
    return rel


def observed(d, relation):
    return {(str(a), str(b)) for a in d.scripts for b in d.relations.object(a, relation)}


@case('P16')
def dictionary_content(spec):
    """which scripts, in which order"""
    if not usable(spec):
        return False
    tabs = ref_tables(spec)
    if too_deep(tabs):
        return False
    d = make(spec, spec['shuffle'])
    expected = R.sort({x for t in tabs.values() for x in t})
    got = [str(s) for s in d.scripts]
    equal(got, [x.text for x in expected], 'scripts of the dictionary')
    equal(len(d), len(expected), 'len of the dictionary')
    for i, x in enumerate(expected):
        s = d[x.text]
        equal(str(s), x.text, 'dictionary[%r]' % x.text)
        equal(d.index[s], i, 'index of %s' % x)
        check(s in d, '%s is in the dictionary', x)
        equal(int(d.roots_idx[i]), int(x in tabs), 'roots_idx of %s' % x)
    for r in spec['paradigms']:
        x = R.ref(r)
        if x not in expected:
            check(build(r) not in d, '%s is not in the dictionary', x)
    return True


@case('P16')
def dictionary_relations(spec):
    if not usable(spec):
        return False
    tabs = ref_tables(spec)
    if too_deep(tabs):
        return False
    d = make(spec, spec['shuffle'])
    D = {str(s): R.parse(str(s)) for s in d.scripts}
    exp = ref_relations(spec, D, tabs)
    for k in RELATIONS:
        got = observed(d, k)
        if got != exp[k]:
            raise Violation('relation %s of the dictionary of %s: wrongly there %s, missing %s' % (
                k, texts_of(spec), sorted(got - exp[k])[:4], sorted(exp[k] - got)[:4]))
    # the other readings of the same relations
    rng = random.Random(spec['shuffle'])
    some = rng.sample(list(d.scripts), min(5, len(d)))
    for a in some:
        o = d.relations.relation_object(a)
        for k in RELATIONS:
            equal(sorted(map(str, o[k])), sorted(b for x, b in exp[k] if x == str(a)), 'relation_object %s of %s' % (k, a))
            pos = [d.index[b] for b in o[k]]
            equal(pos, sorted(pos), 'order of %s of %s' % (k, a))
        for b in some:
            equal(d.relations.relation(a, b), [k for k in RELATIONS if (str(a), str(b)) in exp[k]],
                  'relations from %s to %s' % (a, b))
            equal(bool(d.relations.boolean_matrix[d.index[a], d.index[b]]),
                  any((str(a), str(b)) in exp[k] for k in RELATIONS), 'boolean matrix at %s, %s' % (a, b))
    return True


@case('P16')
def dictionary_order_free(spec):
    if not usable(spec) or too_deep(ref_tables(spec)):
        return False
    a, b = make(spec), make(spec, spec['shuffle'] + 1)
    equal([str(s) for s in a.scripts], [str(s) for s in b.scripts], 'scripts, given in another order')
    for k in RELATIONS:
        equal(sorted(observed(a, k)), sorted(observed(b, k)), 'relation %s, given in another order' % k)
    return True


@case('P16')
def dictionary_overlap(spec):
    """roots that share a sequence are refused"""
    roots = [R.ref(r) for r, _ in spec['roots']]
    if any(not disjoint(x) or table_ref(x) is None for x in roots) or len(set(roots)) != len(roots):
        return False
    if not any(set(a.ss) & set(b.ss) for a, b in itertools.combinations(roots, 2)):
        return False
    try:
        make(spec, spec['shuffle'])
    except ValueError:
        return True
    raise Violation('overlapping roots %s accepted' % [x.text for x in roots])


# ------------------------------------------------------------------ P17
@case('P17')
def table_ranks(spec):
    if not usable(spec):
        return False
    tabs = ref_tables(spec)
    if too_deep(tabs):
        return False
    d = make(spec, spec['shuffle'])
    ts = d.tables
    exp = {x.text: (root, t) for root, dd in tabs.items() for x, t in dd.items()}
    equal(sorted(str(t.script) for t in ts), sorted(exp), 'scripts with a table')
    for text, (root, t) in exp.items():
        s = script(text)
        check(s in ts, '%s has a table', text)
        tab = ts[s]
        equal(str(tab.script), text, 'table of %s' % text)
        equal(str(ts.root(s)), root.text, 'root of %s' % text)
        equal(tab.rank, t.rank, 'rank of %s in %s' % (text, root))
        equal(None if tab.parent is None else str(tab.parent.script), None if t.parent is None else t.parent.x.text,
              'parent of %s' % text)
        kids = sorted(u for u, (_, v) in exp.items() if v.parent is not None and v.parent.x.text == text)
        equal(sorted(str(c.script) for c in ts.children(tab)), kids, 'children of %s' % text)
    equal({str(r): sorted(str(t.script) for t in v) for r, v in ts.roots.items()},
          {r.text: sorted(x.text for x in dd) for r, dd in tabs.items()}, 'scripts of each root')
    return True


@case('P17')
def root_unknown(spec, r):
    if not usable(spec) or too_deep(ref_tables(spec)):
        return False
    d = make(spec, spec['shuffle'])
    x = R.ref(r)
    if x in {y for dd in ref_tables(spec).values() for y in dd}:
        return False
    s = build(r)
    check(s not in d.tables, '%s has no table', x)
    check(raises(lambda: d.tables.root(s), KeyError), 'the root of %s, in no root paradigm, is refused', x)
    return True


@case('P17')
def table_cells(r):
    """the tables of a paradigm give the coordinates of its sequences, and back"""
    x = R.ref(r)
    if x.card == 1 or not disjoint(x) or table_ref(x) is None:
        return False
    spec = dict(roots=[[r, []]], paradigms=[], shuffle=0)
    t = make(spec).tables[build(r)]
    ref = T(x, None, False)
    check(t.ndim == {'1d': 1, '2d': 2}.get(ref.kind, t.ndim), 'number of dimensions of %s', x)
    if ref.kind == 'set':
        equal([str(u) for u in t.tables], [u.text for u in ref.tables], 'tables of %s' % x)
        check(t.ndim > 2, 'number of dimensions of %s', x)
        return True
    for q, c in ref.coord.items():
        c = c[:1] if ref.kind == '1d' else c[:2]
        equal(str(t[c]), q.text, 'cell %s of %s' % (c, x))
        equal(tuple(t.index_of(q.text)), c, 'coordinates of %s in %s' % (q, x))
    if ref.kind == '2d':
        tab = table_ref(x)[0]
        equal([str(h) for h in t.rows], [h.text for h in tab[1]] if isinstance(tab[1], list) else [str(h) for h in t.rows],
              'rows of %s' % x)
        equal(tuple(t.shape), ref.shape, 'shape of %s' % x)
    return True


@case('P17')
def rank_nesting(texts):
    """a chain of paradigms, each one contained in the previous, all listed in one dictionary"""
    rows = [(texts[0], 'is_root', 'True')]
    d = Dictionary(texts, _Structure(rows))
    equal([str(s) for s in d.scripts if len(s) > 1 and str(s) not in texts], [], 'paradigms of the dictionary')
    for t in texts:
        check(d.tables[script(t)].rank < 6, 'rank of %s', t)
    return True


PRIMS = 'EUASBT'


@case('P17')
def placed(nr, nc, depth, cells):
    """a set of cells of a two-dimensional table: whether it is accepted under it, and regularly"""
    rows, cols = [['a'] + list(PRIMS[-n:]) for n in (nr, nc)]
    root = ['m', rows, cols]
    x = R.ref(root)
    t = T(x, None, False)
    tab = Table2D(build(root), None)
    for regular in depth:
        t, tab = T(x, t, regular), Table2D(build(root), tab, regular)
    at = {tuple(c[:2]): q for q, c in t.coord.items()}
    s = R.sum_([at[c // nc, c % nc] for c in cells])
    want = t.accept(s)
    got = tab.accept_script(build(to_recipe(s)))
    equal(tuple(map(bool, got)), (want is not None, bool(want)), 'cells %s accepted, regularly, in a table %dx%d of rank %d'
          % (cells, nr, nc, t.rank))
    return True


def placements(rng, tier):
    for nr in (2, 3):
        for nc in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
            for m in range(1, 1 << nr * nc):
                if m % rng.nparts == rng.part:
                    cells = [i for i in range(nr * nc) if m >> i & 1]
                    if len(cells) > 1:
                        yield nr, nc, [], cells
                        if m % 5 == 0:
                            yield nr, nc, rng.choice([[False], [True], [True, True], [False, True]]), cells
    for _ in range(150 if tier == 'quick' else 3000):
        nr, nc = rng.choice([(4, 4), (4, 5), (5, 4), (6, 4), (6, 6), (4, 6), (5, 6)])
        kind = rng.random()
        pick = lambda n: sorted(rng.sample(range(n), rng.randint(1, n))) if kind < 0.5 else \
            [i for i in range(n) if (i + a) % s < w]
        a, s, w = rng.randint(0, 5), rng.choice([2, 3]), rng.choice([1, 1, 2])
        r, c = pick(nr), pick(nc)
        cells = [i * nc + j for i in r for j in c]
        if rng.random() < 0.3:
            rng.shuffle(cells)
            cells = sorted(cells[1:])
        if len(cells) > 1:
            yield nr, nc, [], cells


# ------------------------------------------------------------------ generators
def to_recipe(x):
    if x.kind == 'n':
        return ['n', x.layer] if x.layer else 'E'
    if x.kind == 'p':
        return x.text[0]
    if x.kind == 'm':
        return ['m'] + [to_recipe(p) for p in x.parts]
    return ['a'] + [to_recipe(p) for p in x.parts]


def sub(rng, x, block=True):
    """a random paradigm contained in x (as an R), or None"""
    if x.card == 1:
        return None
    if x.kind == 'a':
        k = rng.random()
        if k < 0.5:
            n = rng.randint(1, len(x.parts))
            i = rng.randint(0, len(x.parts) - n)
            return R.sum_(x.parts[i:i + n])
        if k < 0.75:
            return R.sum_(rng.sample(list(x.parts), rng.randint(1, len(x.parts))))
        p = rng.choice(x.parts)
        return sub(rng, p) or p
    plural = [i for i in range(3) if x.parts[i].card > 1]
    parts = list(x.parts)
    for i in rng.sample(plural, rng.choice([1, 1, len(plural)])):
        k = rng.random()
        ss = parts[i].ss
        if k < 0.4:
            parts[i] = rng.choice(ss)
        else:
            if k < 0.8:
                n = rng.randint(1, len(ss))
                j = rng.randint(0, len(ss) - n)
                c = ss[j:j + n]
            else:
                c = rng.sample(list(ss), rng.randint(1, len(ss)))
            parts[i] = R.sum_(c)
    try:
        return R.prod(parts)
    except R.Rejected:
        return None


def some_root(rng, layer):
    k = rng.random()
    if layer == 0:
        return rng.choice(['I', 'F', 'M', 'O', ['a'] + rng.sample('EUASBT', rng.randint(2, 5))])

    def part(l, n=None):
        return gen.bounded_recipe(rng, l, maxcard=n or rng.choice([1, 2, 3, 4]), mincard=1)

    if k < 0.2:
        # squares, for the opposed, crossed and twin siblings
        def square(l):
            if l == 0:
                return rng.choice(['O', 'M', 'O', ['a', 'S', 'T'], 'I', 'F', ['a', 'U', 'A', 'S'], ['a', 'U', 'A', 'S', 'B']])
            p = square(l - 1)
            return ['m', p, p if rng.random() < 0.8 else square(l - 1)] + ([part(l - 1, 2)] if rng.random() < 0.3 else [])
        return square(min(layer, 2))
    if k < 0.65:
        n = rng.choice([1, 2, 2, 3])
        r = ['m'] + [part(layer - 1) for _ in range(3)]
        if rng.random() < 0.4:
            r[2] = r[1]
        return r
    if k < 0.85:
        return ['a'] + [['m'] + [part(layer - 1, 3) for _ in range(rng.choice([2, 3]))] for _ in range(2)]
    return gen.bounded_recipe(rng, layer, maxcard=20, mincard=2)


def some_spec(rng, maxcard=40):
    roots, taken = [], set()
    layer = rng.choice([0, 1, 1, 1, 2, 2, 3])
    for i in range(rng.choice([1, 1, 2, 3])):
        for _ in range(30):
            r = some_root(rng, layer if rng.random() < 0.6 else rng.choice([0, 1, 2]))
            try:
                x = R.ref(r)
            except R.Rejected:
                continue
            if not (2 <= x.card <= maxcard) or set(x.ss) & taken or (x.layer and any(q.empty for q in x.ss)) or not disjoint(x) or table_ref(x) is None:
                continue
            taken |= set(x.ss)
            inh = [k for k in SIBLINGS if rng.random() < 0.2]
            roots.append([r, inh])
            break
    pars, xs = [], [R.ref(r) for r, _ in roots]
    for x in list(xs):
        for _ in range(rng.randint(0, 6)):
            y = sub(rng, rng.choice(xs) if rng.random() < 0.4 else x)
            if y is not None and y.card > 1 and disjoint(y) and table_ref(y) is not None:
                if not any(set(y.ss) == set(z.ss) for z in xs):
                    xs.append(y)
                    pars.append(to_recipe(y))
        if x.kind == 'm' and x.parts[0] == x.parts[1] and x.parts[0].card > 2:
            # twins, of a same number of sequences
            ss = x.parts[0].ss
            n = rng.randint(2, len(ss) - 1)
            for j in rng.sample(range(len(ss) - n + 1), min(3, len(ss) - n + 1)):
                p = R.sum_(ss[j:j + n])
                y = R.prod([p, p, x.parts[2] if rng.random() < 0.7 else rng.choice(x.parts[2].ss)])
                if disjoint(y) and table_ref(y) is not None and not any(set(y.ss) == set(z.ss) for z in xs):
                    xs.append(y)
                    pars.append(to_recipe(y))
        # the tables of a set of tables, and the rows, columns
        tabs = table_ref(x)
        for t, rows, cols, _ in tabs:
            heads = [h for h in (rows if isinstance(rows, list) else []) + (cols if isinstance(cols, list) else [])]
            for h in [t] + heads:
                if h.card > 1 and rng.random() < 0.4 and disjoint(h) and table_ref(h) is not None and \
                        not any(set(h.ss) == set(z.ss) for z in xs):
                    xs.append(h)
                    pars.append(to_recipe(h))
    for _ in range(rng.choice([0, 0, 1, 2])):
        # out of the roots
        r = gen.bounded_recipe(rng, layer, maxcard=6)
        pars.append(r)
    rows = []
    for i in range(len(pars)):
        if rng.random() < 0.2:
            rows.append([i, rng.choice(['is_root', 'inhibition']), 'False'])
            if rows[-1][1] == 'inhibition':
                rows[-1][2] = rng.choice(SIBLINGS)
        elif rng.random() < 0.08 and R.ref(pars[i]).card > 1 and R.ref(pars[i]) not in [R.ref(r) for r, _ in roots]:
            # neither a root nor a singular sequence
            rows.append([i, 'is_ignored', rng.choice(['True', 'true', 'False'])])
    return dict(roots=roots, paradigms=pars, rows=rows, shuffle=rng.randint(0, 10 ** 6))


@generator('P16')
def g16(rng, tier):
    n = 220 if tier == 'quick' else 4000
    for i in range(n):
        spec = some_spec(rng, maxcard=rng.choice([6, 12, 30]))
        if not spec['roots']:
            continue
        yield dictionary_content, (spec,)
        yield dictionary_relations, (spec,)
        if i % 4 == 0:
            yield dictionary_order_free, (spec,)
        if i % 3 == 0:
            r = rng.choice(spec['roots'])[0]
            y = sub(rng, R.ref(r))
            if y is not None:
                s2 = dict(spec, roots=spec['roots'] + [[to_recipe(y), []]])
                rng.shuffle(s2['roots'])
                yield dictionary_overlap, (s2,)


@generator('P17')
def g17(rng, tier):
    n = 400 if tier == 'quick' else 6000
    if rng.part == 0:
        yield rank_nesting, (['I:', 'F:', 'M:', 'S:+B:'],)
    for p in placements(rng, tier):
        yield placed, p
    for i in range(n):
        spec = some_spec(rng, maxcard=rng.choice([6, 12, 30, 60]))
        if not spec['roots']:
            continue
        yield table_ranks, (spec,)
        if i % 3 == 0:
            r = gen.bounded_recipe(rng, rng.choice([0, 1, 2]), maxcard=6)
            yield root_unknown, (spec, r)
        yield table_cells, (spec['roots'][0][0],)


# ------------------------------------------------------------------ P22
from ieml.usl import get_index, int2base, PolyMorpheme, Lexeme, Word   # noqa: E402
from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole   # noqa: E402
from string import ascii_uppercase, ascii_lowercase, digits   # noqa: E402

ALPHABETS = ['01', '012', '0123456789', '0123456789abcdef', ''.join(sorted(digits + ascii_uppercase + ascii_lowercase))]


@case('P22')
def base_text(i, width, alphabet):
    if alphabet is None:
        got = int2base(i) if width is None else int2base(i, width)
        alphabet = ALPHABETS[-1]
    else:
        got = int2base(i, width, alphabet) if width is not None else int2base(i, characters=alphabet)
    width = 30 if width is None else width
    n, exp = i, ''
    while n or not exp:
        exp = alphabet[n % len(alphabet)] + exp
        n //= len(alphabet)
    equal(got, exp.rjust(width, '0'), 'int2base(%d, %d, %s)' % (i, width, alphabet))
    return True


@case('P22')
def base_order(i, j, width, k):
    a = ALPHABETS[k]
    if max(i, j) >= len(a) ** width:
        return False
    x, y = int2base(i, width, a), int2base(j, width, a)
    equal([len(x), len(y)], [width, width], 'width of the texts of %d, %d' % (i, j))
    equal(x < y, i < j, 'order of the texts of %d, %d' % (i, j))
    equal(x == y, i == j, 'equality of the texts of %d, %d' % (i, j))
    return True


@case('P22')
def base_negative(i, width):
    check(raises(lambda: int2base(i, width)), 'the negative index %d is refused', i)
    return True


class _FakeDictionary:
    """what the index keys need of a dictionary"""
    def __init__(self, scripts):
        self.scripts = scripts
        self.index = {s: i for i, s in enumerate(scripts)}


@case('P22')
def usl_keys(recipes, pms, lex):
    xs = R.sort({x for x in map(R.ref, recipes) if not x.empty})
    if not xs:
        return False
    scripts = [script(x.text) for x in xs]
    dic = _FakeDictionary(scripts)
    keys = {}

    def put(kind, name, key):
        equal(key[0], kind, 'kind of the key of %s' % name)
        equal(key[1][0], str(kind), 'first character of the key of %s' % name)
        keys.setdefault(key, set()).add((kind, name))

    for x, s in zip(xs, scripts):
        k = get_index(s, dic)
        put(0, x.text, k)
        equal(get_index(PolyMorpheme(constant=[s]), dic), k, 'key of the polymorpheme of %s' % x)
    for p in pms:
        c = sorted({i % len(xs) for i in p})
        if len(c) < 2:
            continue
        put(1, ' '.join(xs[i].text for i in c), get_index(PolyMorpheme(constant=[scripts[i] for i in reversed(c)]), dic))
    for k, names in keys.items():
        if len(names) > 1:
            raise Violation('the USLs %s have the same key %s' % (sorted(names), k))
    # alphabetical order of the keys of morphemes is the order of morphemes
    mk = [get_index(s, dic) for s in scripts]
    equal(mk, sorted(mk), 'order of the keys of morphemes')
    pk = {k for k, n in keys.items() if list(n)[0][0] == 1}
    for a in lex:
        pm = PolyMorpheme(constant=[scripts[i % len(xs)] for i in sorted(set(a))[:1]])
        lx = Lexeme(pm_flexion=PolyMorpheme(constant=[]), pm_content=pm)
        k = get_index(lx, dic)
        check(k not in keys, 'the key %s of a lexeme is that of a morpheme or polymorpheme', k)
        equal((k[0], k[1][0]), (2, '2'), 'kind of the key of a lexeme')
        role = SyntagmaticRole([script('E:S:.')])
        ctx, f = SyntagmaticFunction.from_list([([script('E:S:.')], lx)])
        w = Word(f, role, ctx)
        k = get_index(w, dic)
        equal((k[0], k[1][0]), (3, '3'), 'kind of the key of a word')
    check(all(k[0] == 1 for k in pk), 'kinds')
    return True


@generator('P22')
def g22(rng, tier):
    n = 3000 if tier == 'quick' else 40000
    for i in range(rng.part, 400, rng.nparts):
        yield base_text, (i, None, None)
        yield base_order, (i, i + 1, 9, 0)
    yield base_negative, (-1 - rng.part, 5)
    for i in range(n):
        k = rng.randrange(len(ALPHABETS))
        a = ALPHABETS[k]
        w = rng.choice([1, 2, 3, 5, 8, 30])
        top = len(a) ** w
        x = rng.randrange(top) if rng.random() < 0.6 else min(top - 1, len(a) ** rng.randrange(w + 1) + rng.choice([-1, 0, 1]))
        x = max(0, x)
        y = rng.choice([rng.randrange(top), x, min(top - 1, x + 1), max(0, x - 1), min(top - 1, x + len(a))])
        yield base_text, (x, w, a)
        yield base_text, (rng.randrange(62 ** rng.choice([1, 2, 5, 20, 30])), None, None)
        yield base_order, (x, y, w, k)
        if i % 10 == 0:
            rec = [gen.singular(rng, rng.choice([0, 1, 1, 2])) for _ in range(rng.choice([2, 4, 8, 30]))]
            pms = [[rng.randrange(40) for _ in range(rng.choice([2, 2, 3, 4]))] for _ in range(30)]
            pms += list(itertools.combinations(range(4), 2)) + list(itertools.combinations(range(4), 3))
            yield usl_keys, (rec, pms, [[rng.randrange(40)] for _ in range(3)])
