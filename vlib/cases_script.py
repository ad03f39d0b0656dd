"""Bounded cases on scripts (P01-P08)."""
import itertools
import pickle
import re

import numpy as np

from . import ref as R, gen
from .core import case, generator, check, equal, Violation, raises
from ieml.dictionary.script import Script, AdditiveScript, MultiplicativeScript, NullScript, script, factorize
from ieml.dictionary.script.operator import m as op_m, add as op_add
from ieml.dictionary.script.tools import promote
from ieml.exceptions import CannotParse

KIND = {'n': NullScript, 'p': MultiplicativeScript, 'm': MultiplicativeScript, 'a': AdditiveScript}


def build(r):
    """the script of the recipe, by the constructors"""
    if isinstance(r, str):
        if r == 'E':
            return NullScript(layer=0)
        if r in R.SUMS:
            return AdditiveScript(character=r)
        return MultiplicativeScript(character=r)
    if r[0] == 'n':
        return NullScript(layer=r[1])
    if r[0] == 'm':
        return MultiplicativeScript(children=[build(c) for c in r[1:]])
    return AdditiveScript(children=[build(c) for c in r[1:]])


def norm(x):
    """the canonical object of the library for the reference script x"""
    if x.kind == 'n':
        return NullScript(layer=x.layer)
    if x.kind == 'p':
        return MultiplicativeScript(character=x.text[0])
    if x.kind == 'm':
        return MultiplicativeScript(children=[norm(p) for p in x.parts])
    return AdditiveScript(children=[norm(p) for p in x.parts])


def same(s, x, what):
    """the observable attributes of the script s are those of the reference x"""
    equal(str(s), x.text, what + ': text')
    equal(s.layer, x.layer, '%s %s: layer' % (what, x))
    equal(s.cardinal, x.card, '%s %s: cardinal' % (what, x))
    equal(len(s), x.card, '%s %s: len' % (what, x))
    equal(bool(s.empty), x.empty, '%s %s: empty' % (what, x))
    equal(bool(s.paradigm), x.paradigm, '%s %s: paradigm' % (what, x))
    equal(bool(s.is_singular), x.card == 1, '%s %s: is_singular' % (what, x))
    equal(s.script_class, x.cls, '%s %s: class' % (what, x))
    equal(s.grammatical_class, x.cls, '%s %s: grammatical class' % (what, x))
    equal(s.canonical, x.canon, '%s %s: canonical' % (what, x))


def deep_same(s, x, what):
    same(s, x, what)
    if x.kind == 'a':
        equal([str(c) for c in s.children], [p.text for p in x.parts], '%s %s: terms' % (what, x))
        for c, p in zip(s.children, x.parts):
            deep_same(c, p, what)
    elif x.kind == 'm':
        ch = list(s.children)
        if isinstance(s, AdditiveScript):
            equal(len(ch), 1, '%s %s: terms of a single sum' % (what, x))
            return deep_same(ch[0], x, what)
        equal([str(c) for c in ch], [p.text for p in x.parts], '%s %s: parts' % (what, x))
        for c, p in zip(ch, x.parts):
            deep_same(c, p, what)


# ---------------------------------------------------------------- P01

@case('P01')
def order_pair(a, b):
    xa, xb = R.ref(a), R.ref(b)
    sa, sb = norm(xa), norm(xb)
    equal(sa < sa, False, '%s < itself' % xa)
    equal(sa == sb, xa.text == xb.text, '%s == %s' % (xa, xb))
    l, g = bool(sa < sb), bool(sb < sa)
    check(l + g + (xa.text == xb.text) == 1, 'not exactly one of <, ==, > for %s and %s (%s, %s)', xa, xb, l, g)
    equal(l, R.lt(xa, xb), '%s < %s' % (xa, xb))
    return xa.text != xb.text


@case('P01')
def order_triple(a, b, c):
    s = [norm(R.ref(x)) for x in (a, b, c)]
    for x, y, z in itertools.permutations(s):
        if x < y and y < z:
            check(x < z, 'not transitive: %s < %s < %s', str(x), str(y), str(z))
    return len({str(x) for x in s}) == 3


@case('P01')
def order_sort(l, perm):
    xs = [R.ref(r) for r in l]
    s = [norm(x) for x in xs]
    exp = [x.text for x in R.sort(xs)]
    equal([str(t) for t in sorted(s)], exp, 'sorted')
    equal([str(t) for t in sorted(s[i] for i in perm)], exp, 'sorted (permuted)')
    return len(l) > 2


def _swap_variants(rng, r):
    """scripts close to r: one part changed, parts swapped, regrouped sums"""
    if isinstance(r, str) or r[0] == 'n':
        return gen.bounded_recipe(rng, R.layer_of(r), empty=0.1)
    r = list(r)
    i = rng.randrange(1, len(r))
    k = rng.random()
    if k < 0.3 and len(r) > 2:
        j = rng.randrange(1, len(r))
        r[i], r[j] = r[j], r[i]
    elif k < 0.5 and r[0] == 'm':
        r[i] = ['n', R.layer_of(r) - 1]
    else:
        r[i] = _swap_variants(rng, r[i])
    return r


def near(rng, r, maxcard=R.MAX):
    for _ in range(20):
        v = _swap_variants(rng, r)
        try:
            if R.ref(v).card <= maxcard:
                return v
        except R.Rejected:
            pass
    return r


def same_canonical_pair(rng, layer=2):
    """two different scripts with the same cardinal and the same canonical form: the sequence of terms is split
    differently between the parts"""
    for _ in range(50):
        n = rng.randint(3, 5)
        terms = R.sort({R.ref(gen.singular(rng, layer - 1)) for _ in range(n)})
        rec = {t: t for t in terms}
        n = len(terms)
        if n < 3:
            continue
        cuts = [c for k in (1, 2) for c in itertools.combinations(range(1, n), k)]
        res = []
        for c in cuts:
            b = (0,) + c + (n,)
            groups = [terms[b[i]:b[i + 1]] for i in range(len(b) - 1)]
            res.append(['m'] + [to_recipe(R.sum_(g)) for g in groups])
        res = [(r, R.ref(r)) for r in res]
        pairs = [(a[0], b[0]) for a, b in itertools.combinations(res, 2)
                 if a[1].text != b[1].text and a[1].card == b[1].card]
        if pairs:
            return rng.choice(pairs)
    return 'U', 'A'


def to_recipe(x):
    if x.kind == 'n':
        return ['n', x.layer]
    if x.kind == 'p':
        return x.text[0]
    return [x.kind] + [to_recipe(p) for p in x.parts]


ALL0 = [to_recipe(R.sum_([R.prim(c) for c in cs])) for k in range(1, 7) for cs in itertools.combinations('EUASBT', k)]


@generator('P01')
def g01_layer0(rng, tier):
    pairs = list(itertools.product(ALL0, ALL0))
    for i, (a, b) in enumerate(pairs):
        if i % rng.nparts == rng.part:
            yield order_pair, (a, b)


@generator('P01')
def g01(rng, tier):
    n = 4000 if tier == 'quick' else 40000
    for i in range(n):
        layer = rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6])
        mc = rng.choice([1, 4, 8, 30, 360])
        a = gen.bounded_recipe(rng, layer, maxcard=mc)
        k = rng.random()
        if k < 0.45:
            b = near(rng, a)
        elif k < 0.55 and layer >= 2:
            a, b = same_canonical_pair(rng, layer)
        elif k < 0.9:
            b = gen.bounded_recipe(rng, layer, maxcard=mc)
        else:
            b = gen.bounded_recipe(rng, rng.randint(0, 6), maxcard=mc)
        yield order_pair, (a, b)
        if i % 3 == 0:
            yield order_triple, (a, b, near(rng, b))
        if i % 7 == 0:
            l = [a, b] + [near(rng, rng.choice([a, b])) for _ in range(rng.randint(1, 4))]
            l.append(['n', layer])
            p = list(range(len(l)))
            rng.shuffle(p)
            yield order_sort, (l, p)


# ---------------------------------------------------------------- P02

@case('P02')
def sum_normal_form(r, alt):
    """r and alt are two ways to write the same sum"""
    x = R.ref(r)
    s = build(r)
    deep_same(s, x, 'sum')
    t = build(alt)
    equal(str(t), x.text, 'the same sum written otherwise')
    deep_same(t, x, 'sum')
    check(s == t and hash(s) == hash(t), 'equal sums %s', x)
    return x.kind == 'a'


@case('P02')
def sum_plus(a, b, c):
    """a + b, by the operator"""
    xa, xb, xc = R.ref(a), R.ref(b), R.ref(c)
    ab = R.sum_([xa, xb])
    abc = R.sum_([xa, xb, xc])
    sa, sb, sc = norm(xa), norm(xb), norm(xc)
    deep_same(sa + sb, ab, 'a + b')
    deep_same(sb + sa, ab, 'b + a')
    deep_same((sa + sb) + sc, abc, '(a + b) + c')
    deep_same(sa + (sb + sc), abc, 'a + (b + c)')
    deep_same(sa + sa, xa, 'a + a')
    deep_same((sa + sa) + sb, ab, '(a + a) + b')
    deep_same(AdditiveScript(children=[sa, sb, sc, sa]), abc, 'sum')
    return len({xa.text, xb.text, xc.text}) == 3


@case('P02')
def sum_rejects(l):
    """scripts of different layers, or too many singular sequences"""
    s = [norm(R.ref(r)) for r in l]
    try:
        x = R.sum_([R.ref(r) for r in l])
    except R.Rejected:
        x = None
    try:
        got = AdditiveScript(children=s)
    except Exception:
        check(x is None, 'a valid sum is rejected: %s', l and [R.ref(r).text for r in l])
        return True
    if x is None:
        raise Violation('accepted: %s' % [R.ref(r).text for r in l])
    deep_same(got, x, 'sum')


@case('P02')
def sum_add(l):
    """sum of scripts of any layers: promoted to the highest layer first"""
    xs = [R.ref(r) for r in l]
    L = max(x.layer for x in xs)

    def pr(x):
        while x.layer < L:
            x = R.prod([x])
        return x
    exp = R.sum_([pr(x) for x in xs])
    deep_same(op_add([norm(x) for x in xs]), exp, 'add')
    return len({x.layer for x in xs}) > 1


@generator('P02')
def g02(rng, tier):
    if rng.part == 0:
        yield sum_rejects, ([],)
    subs = list(ALL0)
    for i, r in enumerate(subs):
        if i % rng.nparts == rng.part:
            rr = ['a', r] if isinstance(r, str) or r[0] != 'a' else r
            yield sum_normal_form, (rr, gen.nest_sum(rng, gen.shuffle_recipe(rng, rr)[1:]))
    n = 1200 if tier == 'quick' else 15000
    for i in range(n):
        layer = rng.choice([0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6])
        mc = rng.choice([1, 4, 30, 100, 120])
        terms = [gen.bounded_recipe(rng, layer, maxcard=mc) for _ in range(rng.randint(1, 4))]
        for _ in range(rng.randint(0, 2)):
            terms.append(near(rng, rng.choice(terms)))
        r = ['a'] + terms
        try:
            R.ref(r)
        except R.Rejected:
            yield sum_rejects, (terms,)
            continue
        alt = list(terms)
        rng.shuffle(alt)
        alt.append(rng.choice(terms))
        yield sum_normal_form, (r, gen.nest_sum(rng, [gen.shuffle_recipe(rng, t) for t in alt]))
        if len(terms) >= 3:
            yield sum_plus, (terms[0], terms[1], terms[2])
        if i % 4 == 0:
            terms = list(terms)
            terms[rng.randrange(len(terms))] = gen.bounded_recipe(rng, rng.randint(0, 6), maxcard=20)
            yield sum_rejects, (terms,)
            try:
                sum_ok = all(R.ref(t).card <= 60 for t in terms)
            except R.Rejected:
                sum_ok = False
            if sum_ok:
                yield sum_add, (terms,)
        if i % 15 == 0:
            # many terms
            layer = rng.choice([1, 1, 2, 3])
            many = [gen.singular(rng, layer) for _ in range(rng.choice([12, 20, 40, 70, 110]))]
            yield sum_normal_form, (['a'] + many, gen.nest_sum(rng, [gen.shuffle_recipe(rng, t) for t in many]))
            yield sum_normal_form, (['a', ['a'] + many[1:], many[0]], ['a', many[-1], ['a'] + many[:-1]])
        if i % 10 == 0:
            # terms that only their structure tells apart
            a, b = same_canonical_pair(rng, rng.choice([2, 2, 3]))
            if a != 'U':
                more = [b, a] + ([gen.bounded_recipe(rng, R.layer_of(a), maxcard=20)] if rng.random() < 0.5 else [])
                try:
                    R.ref(['a', a, b] + more[2:])
                except R.Rejected:
                    continue
                yield sum_normal_form, (['a', a, b] + more[2:], ['a'] + more)
        if i % 3 == 0:
            yield sum_rejects, (boundary_terms(rng, rng.choice([1, 2, 2, 3])),)


def boundary_terms(rng, layer):
    """disjoint terms with a total cardinal near 360"""
    firsts = list('UASBT')
    rng.shuffle(firsts)
    terms, total = [], 0
    target = rng.choice([358, 359, 360, 360, 361, 362, 365, 372])
    wrap = lambda r: r if layer == 1 else wrap_to(r, layer)
    for f in firsts:
        for g in ('F', 'M', 'I', 'O'):
            rest = target - total
            if rest <= 0:
                break
            best = None
            for h in ('I', 'F', 'M', 'O', 'S'):
                for g2 in ('I', 'F', 'M', 'O', 'S'):
                    c = R.ref(g2).card * R.ref(h).card
                    if c <= rest and (best is None or c > best[0]):
                        best = (c, ['m', f, g2, h])
            k = wrap(best[1])
            if R.ref(k) in [R.ref(t) for t in terms]:
                break
            terms.append(k)
            total += best[0]
    return terms


def wrap_to(r, layer):
    while R.layer_of(r) < layer:
        r = ['m', r]
    return r


# ---------------------------------------------------------------- P03

@case('P03')
def product_normal_form(parts, alt):
    r = ['m'] + parts
    x = R.ref(r)
    s = build(r)
    deep_same(s, x, 'product')
    t = build(alt)
    deep_same(t, x, 'the same product written otherwise')
    check(s == t and hash(s) == hash(t), 'equal products %s', x)
    c = [norm(R.ref(p)) for p in parts]
    c = c + [None] * (3 - len(c))
    deep_same(MultiplicativeScript(substance=c[0], attribute=c[1], mode=c[2]), x, 'product (by name)')
    deep_same(op_m(*c), x, 'm()')
    return not x.empty


@case('P03')
def product_rejects(parts):
    try:
        x = R.prod([R.ref(p) for p in parts])
    except R.Rejected:
        x = None
    s = [norm(R.ref(p)) for p in parts]
    try:
        got = MultiplicativeScript(children=s)
    except Exception:
        check(x is None, 'a valid product is rejected: %s', [str(c) for c in s])
        return True
    if x is None:
        raise Violation('accepted: %s' % [str(c) for c in s])
    deep_same(got, x, 'product')


@generator('P03')
def g03(rng, tier):
    tri = list(itertools.product(CH0, repeat=3))
    for i, t in enumerate(tri):
        if i % rng.nparts == rng.part:
            k = rng.randint(1, 3)
            yield product_rejects, (list(t),)
            if all(isinstance(c, str) and c in 'EUASBTO' for c in t):
                yield product_normal_form, (list(t[:k]), ['m'] + list(t[:k]) + ['E'] * rng.randint(0, 3 - k))
    n = 1500 if tier == 'quick' else 20000
    for i in range(n):
        layer = rng.choice([0, 0, 1, 1, 1, 2, 2, 3, 4, 5])
        mc = rng.choice([1, 4, 8, 30])
        parts = [gen.bounded_recipe(rng, layer, maxcard=mc, single=0.1) for _ in range(rng.randint(1, 3))]
        if i % 5 == 0:
            parts[rng.randrange(len(parts))] = gen.bounded_recipe(rng, rng.randint(0, 5), maxcard=20)
            yield product_rejects, (parts,)
            continue
        if i % 5 == 1:
            parts = [rng.choice(PLURALS[c]) for c in rng.choice(NEAR360)]
            yield product_rejects, ([wrap_to(p, layer) for p in parts],)
            continue
        try:
            R.ref(['m'] + parts)
        except R.Rejected:
            yield product_rejects, (parts,)
            continue
        yield product_normal_form, (parts, gen.shuffle_recipe(rng, ['m'] + parts))


CH0 = ['E', 'U', 'A', 'S', 'B', 'T', 'O', 'M', 'F', 'I', ['a', 'U', 'S'], ['a', 'E', 'A'], ['a', 'T']]
PLURALS = {}


def _plurals():
    base = ['U', 'O', 'M', ['a', 'U', 'A', 'S', 'B'], 'F', 'I']
    for a in base:
        for b in base:
            for c in base:
                r = ['m', a, b, c]
                x = R.ref(r)
                PLURALS.setdefault(x.card, []).append(r)


_plurals()
NEAR360 = [(a, b, c) for a in PLURALS for b in PLURALS for c in PLURALS if 300 <= a * b * c <= 400]


# ---------------------------------------------------------------- P04

@case('P04')
def parse_text(r):
    """a spelling of the recipe parses to the normal form"""
    x = R.ref(r)
    t = R.text_of(r)
    s = script(t)
    deep_same(s, x, 'script(%r)' % t)
    u = script(str(s))
    deep_same(u, x, 'script(%r)' % str(s))
    check(s == u and hash(s) == hash(u) and s == x.text, 'parsed scripts are equal: %s', x)
    equal(sorted(str(q) for q in u.singular_sequences), sorted(q.text for q in x.ss), 'singular sequences of %s' % x)
    return R.layer_of(r) > 0


@case('P04')
def text_of_built(r):
    x = R.ref(r)
    s = norm(x)
    u = script(str(s))
    deep_same(u, x, 'script(str(%s))' % x)
    check(s == u and u == s and not s != u and hash(s) == hash(u), '%s is equal to its parsed text', x)
    p = pickle.loads(pickle.dumps(u))
    deep_same(p, x, 'unpickled')
    check(p == s and hash(p) == hash(s), 'unpickled is equal: %s', x)
    return x.layer > 0


@case('P04')
def text_distinct(a, b):
    """two scripts have the same text iff they have the same structure"""
    xa, xb = R.ref(a), R.ref(b)
    sa, sb = norm(xa), norm(xb)
    equal(str(sa) == str(sb), struct(sa) == struct(sb), 'text/structure equality of %s and %s' % (xa, xb))
    equal(sa == sb, str(sa) == str(sb), 'equality of %s and %s' % (xa, xb))
    return xa.text != xb.text


def struct(s):
    if s.empty:
        return ('n', s.layer)
    if isinstance(s, AdditiveScript):
        if len(s.children) == 1:
            return struct(s.children[0])
        return ('a',) + tuple(sorted(map(struct, s.children), key=repr))
    if s.layer == 0:
        return s.character
    return ('m',) + tuple(map(struct, s.children))


def text_ok(r):
    """no sum directly in a sum (there are no parentheses in the language)"""
    if isinstance(r, str) or r[0] == 'n':
        return True
    if r[0] == 'a' and any(not isinstance(c, str) and c[0] == 'a' for c in r[1:]):
        return False
    return all(text_ok(c) for c in r[1:])


LETTERS0 = 'EUASBTOMFI'
TOKEN = re.compile('w[oaue]|[%s]|[a-z]|.' % LETTERS0)


def well_formed(toks):
    """recogniser of the script language (no semantics)"""
    def one(n, i):
        if n == 0:
            return i + 2 if i + 1 < len(toks) and toks[i] in LETTERS0 and toks[i + 1] == ':' else None
        if n == 1 and i + 1 < len(toks) and toks[i] in R.PRODUCTS and toks[i + 1] == '.':
            return i + 2
        for k in range(3):
            i = many(n - 1, i)
            if i is None or i >= len(toks):
                return None
            if toks[i] == R.MARKS[n]:
                return i + 1
        return None

    def many(n, i):
        i = one(n, i)
        while i is not None and i < len(toks) and toks[i] == '+':
            i = one(n, i + 1)
        return i

    return any(many(n, 0) == len(toks) for n in range(len(R.MARKS)))


@case('P04')
def malformed_script(t):
    toks = TOKEN.findall(t)
    if well_formed(toks):
        return False
    try:
        r = script(t)
    except CannotParse:
        return True
    raise Violation('%r is not a well formed script and is read as %r' % (t, r if r is None else str(r)))


@generator('P04')
def g04_malformed(rng, tier):
    alphabet = list(LETTERS0) + sorted(R.PRODUCTS) + list(R.MARKS) + ['+']
    for i in range(500 if tier == 'quick' else 8000):
        if i % 6 == 0:
            yield malformed_script, (''.join(rng.choice(alphabet) for _ in range(rng.randint(0, 6))),)
            continue
        toks = TOKEN.findall(R.ref(gen.bounded_recipe(rng, rng.choice([0, 1, 1, 2, 2, 3, 4, 6]), maxcard=30)).text)
        k = rng.randrange(4)
        j = rng.randrange(len(toks))
        if k == 0:
            toks = toks[:j] if rng.random() < .5 else toks[:-1]
        elif k == 1:
            del toks[j]
        elif k == 2:
            toks.insert(j, rng.choice(alphabet))
        else:
            toks[j] = rng.choice(alphabet)
        yield malformed_script, (''.join(toks),)


@generator('P04')
def g04(rng, tier):
    for i, r in enumerate(ALL0):
        if i % rng.nparts == rng.part:
            yield parse_text, (r,)
            yield text_of_built, (r,)
    pairs = [['m'] + list(p) for p in itertools.product('EUASBTOMFI', repeat=2)]
    for i, r in enumerate(pairs):
        if i % rng.nparts == rng.part:
            yield parse_text, (r,)
    n = 1500 if tier == 'quick' else 15000
    for i in range(n):
        layer = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 6])
        mc = rng.choice([1, 4, 30, 360])
        r = gen.bounded_recipe(rng, layer, maxcard=mc)
        v = gen.shuffle_recipe(rng, r)
        if text_ok(v):
            yield parse_text, (v,)
        if i % 2 == 0:
            yield text_of_built, (r,)
            yield text_distinct, (r, near(rng, r))


# ---------------------------------------------------------------- P05

@case('P05')
def singular_sequences(r):
    x = R.ref(r)
    s = norm(x)
    ss = list(s.singular_sequences)
    equal([str(q) for q in ss], [q.text for q in x.ss], 'singular sequences of %s' % x)
    equal(len(ss), s.cardinal, 'number of singular sequences of %s' % x)
    for q, e in zip(ss, x.ss):
        same(q, e, 'singular sequence of %s' % x)
        check(q.cardinal == 1 and q.layer == s.layer, 'singular sequence %s of %s', str(q), x)
    equal({str(q) for q in s.singular_sequences_set}, {q.text for q in x.ss}, 'singular_sequences_set of %s' % x)
    # asking again, or asking an equal script, gives the same
    equal([str(q) for q in s.singular_sequences], [q.text for q in x.ss], 'singular sequences (again) of %s' % x)
    if x.card == 1:
        check(ss[0] == s, 'the singular sequence of %s', x)
    return x.card > 1


@case('P05')
def singular_of_parsed(r):
    x = R.ref(r)
    s = script(R.text_of(r))
    equal([str(q) for q in s.singular_sequences], [q.text for q in x.ss], 'singular sequences of %s' % x)
    return x.card > 1


@generator('P05')
def g05(rng, tier):
    for i, r in enumerate(ALL0):
        if i % rng.nparts == rng.part:
            yield singular_sequences, (r,)
    tri = list(itertools.product('EUOMI', repeat=3))
    for i, t in enumerate(tri):
        if i % rng.nparts == rng.part:
            yield singular_sequences, (['m'] + list(t),)
    n = 3000 if tier == 'quick' else 30000
    for i in range(n):
        layer = rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6])
        mc = rng.choice([4, 12, 60, 60, 360])
        r = gen.bounded_recipe(rng, layer, maxcard=mc, mincard=rng.choice([1, 2, 2, 3]), empty=0.2)
        yield singular_sequences, (r,)
        if i % 3 == 0:
            v = gen.shuffle_recipe(rng, r)
            if text_ok(v):
                yield singular_of_parsed, (v,)


# ---------------------------------------------------------------- P06

@case('P06')
def contains(a, b):
    xa, xb = R.ref(a), R.ref(b)
    sa, sb = norm(xa), norm(xb)
    equal(sb in sa, R.same_members(xb, xa), '%s in %s' % (xb, xa))
    equal(sa in sb, R.same_members(xa, xb), '%s in %s' % (xa, xb))
    check(sa in sa, '%s contains itself', xa)
    check('x' not in sa and None not in sa, 'a non script in a script')
    for q in list(sa.singular_sequences)[:5]:
        check(q in sa, 'singular sequence %s in %s', str(q), xa)
        equal(sa in q, xa.card == 1, '%s in %s' % (xa, str(q)))
    return xa.layer == xb.layer and xa.text != xb.text


@case('P06')
def contains_laws(a, b, c):
    s = [norm(R.ref(x)) for x in (a, b, c)]
    for x, y, z in itertools.permutations(s):
        if x in y and y in z:
            check(x in z, 'containment is not transitive: %s, %s, %s', str(x), str(y), str(z))
        if x in y and y in x:
            equal({str(q) for q in x.singular_sequences}, {str(q) for q in y.singular_sequences}, 'mutual containment')
        if x in y:
            check(x.cardinal <= y.cardinal or len(set(map(str, x.singular_sequences))) < x.cardinal,
                  'cardinal of %s in %s', str(x), str(y))
    return True


def sub_recipe(rng, r):
    """a script with part of the singular sequences of r (or nearly)"""
    x = R.ref(r)
    k = rng.random()
    if k < 0.3 or isinstance(r, str) or r[0] == 'n':
        l = rng.sample(x.ss, rng.randint(1, min(4, len(x.ss))))
        if rng.random() < 0.15:
            try:
                l.append(R.ref(near(rng, to_recipe(l[0]))))
            except R.Rejected:
                pass
        try:
            return ['a'] + [to_recipe(q) for q in l]
        except R.Rejected:
            return r
    r = list(r)
    i = rng.randrange(1, len(r))
    if r[0] == 'a' and k < 0.6 and len(r) > 2:
        del r[i]
    else:
        r[i] = sub_recipe(rng, r[i])
    return r


def sub_ok(rng, r):
    for _ in range(10):
        v = sub_recipe(rng, r)
        try:
            R.ref(v)
            return v
        except R.Rejected:
            pass
    return r


@generator('P06')
def g06(rng, tier):
    for i, (a, b) in enumerate(itertools.product(ALL0, ALL0)):
        if i % (rng.nparts * 2) == rng.part:
            yield contains, (a, b)
    n = 3000 if tier == 'quick' else 30000
    for i in range(n):
        layer = rng.choice([1, 1, 2, 2, 3, 4, 5, 6])
        a = gen.bounded_recipe(rng, layer, maxcard=rng.choice([6, 24, 60]), mincard=rng.choice([1, 2, 4]))
        k = rng.random()
        if k < 0.6:
            b = sub_ok(rng, a)
        elif k < 0.8:
            b = near(rng, a)
        elif k < 0.9 and layer < 6:
            b = ['m', a]
        else:
            b = gen.bounded_recipe(rng, rng.randint(0, 6), maxcard=20)
        yield contains, (a, b)
        if i % 3 == 0:
            yield contains_laws, (a, b, sub_ok(rng, b))


# ---------------------------------------------------------------- P07

@case('P07')
def factorize_script(r):
    x = R.ref(r)
    s = norm(x)
    f = factorize(s)
    equal(f.layer, x.layer, 'layer of factorize(%s)' % x)
    equal({str(q) for q in f.singular_sequences}, {q.text for q in x.ss}, 'sequences of factorize(%s) = %s' % (x, f))
    equal(len(f.singular_sequences), f.cardinal, 'cardinal of factorize(%s)' % x)
    equal(f.cardinal, len({q.text for q in x.ss}), 'the terms of factorize(%s) = %s are disjoint' % (x, f))
    return x.card > 1


@case('P07')
def factorize_list(l, do_promote):
    xs = [R.ref(r) for r in l]
    L = max(x.layer for x in xs)

    def pr(x):
        while x.layer < L:
            x = R.prod([x])
        return x
    exp = {pr(q).text for x in xs for q in x.ss}
    f = factorize([norm(x) for x in xs]) if do_promote else factorize([norm(x) for x in xs], promote=False)
    equal(f.layer, L, 'layer of factorize(%s)' % xs)
    equal({str(q) for q in f.singular_sequences}, exp, 'sequences of factorize(%s) = %s' % (xs, f))
    return len(exp) > 1


@case('P07')
def factorize_by_script(r):
    x = R.ref(r)
    f = script(x.text, factorize=True)
    equal({str(q) for q in f.singular_sequences}, {q.text for q in x.ss}, 'script(%s, factorize=True)' % x)
    return x.card > 1


@case('P07')
def promote_law(r, layer):
    x = R.ref(r)
    s = promote(norm(x), layer)
    e = x
    while e.layer < layer:
        e = R.prod([e])
    deep_same(s, e, 'promote(%s, %d)' % (x, layer))
    equal([str(q) for q in s.singular_sequences], [q.text for q in e.ss], 'sequences of promote(%s, %d)' % (x, layer))
    return layer > x.layer


@generator('P07')
def g07(rng, tier):
    n = 4000 if tier == 'quick' else 40000
    for i in range(n):
        k = rng.random()
        if k < 0.25:
            layer = rng.choice([0, 1, 1, 2, 3])
            r = gen.bounded_recipe(rng, layer, maxcard=24, mincard=rng.choice([1, 2, 4]))
            yield factorize_script, (r,)
        elif k < 0.6:
            # a random set of sequences in a small cube
            layer = rng.choice([1, 1, 1, 2])
            axis = [[gen.singular(rng, layer - 1) for _ in range(rng.randint(1, 3))] for _ in range(3)]
            cells = list(itertools.product(*axis))
            seqs = [['m'] + list(c) for c in rng.sample(cells, rng.randint(1, min(len(cells), 14)))]
            yield factorize_script, (['a'] + seqs,)
            yield factorize_list, (seqs, True)
        elif k < 0.75:
            layer = rng.choice([0, 1, 2])
            l = [gen.bounded_recipe(rng, layer, maxcard=6) for _ in range(rng.randint(1, 4))]
            yield factorize_list, (l, rng.random() < 0.5)
        elif k < 0.9:
            l = [gen.bounded_recipe(rng, rng.randint(0, 2), maxcard=4) for _ in range(rng.randint(2, 3))]
            yield factorize_list, (l, True)
        else:
            r = gen.bounded_recipe(rng, rng.choice([1, 2]), maxcard=12)
            yield factorize_by_script, (r,)
        if i % 12 == 0:
            # many sequences
            layer = rng.choice([1, 2, 2, 3])
            axis = [[gen.singular(rng, layer - 1) for _ in range(rng.choice([2, 5, 8]))] for _ in range(3)]
            cells = list(itertools.product(*axis))
            seqs = [['m'] + list(c) for c in rng.sample(cells, min(len(cells), rng.choice([25, 60, 100, 150])))]
            yield factorize_list, (seqs, rng.random() < 0.5)
            yield factorize_script, (['a'] + seqs,)
        if i % 5 == 0:
            l0 = rng.randint(0, 5)
            yield promote_law, (gen.bounded_recipe(rng, l0, maxcard=30), rng.randint(max(0, l0 - 1), 6))


# ---------------------------------------------------------------- P08

def table_ref(x):
    """-> list of (table script, rows, columns or None, {sequence: coordinates}) of the reference script x, or None when
    a table would have more than 12 headers in a dimension"""
    if x.card == 1:
        return [(x, None, None, {x: (0, 0, 0)})]
    if x.kind == 'a':
        if any(p.card == 1 for p in x.parts):
            return [(x, 'self', None, {s: (i, 0, 0) for i, s in enumerate(x.ss)})]
        res = []
        for p in x.parts:
            t = table_ref(p)
            if t is None:
                return None
            res += t
        return res
    plural = [i for i in range(3) if x.parts[i].card > 1]

    def put(i, s):
        return R.prod([s if j == i else x.parts[j] for j in range(3)])

    if len(plural) == 1:
        i = plural[0]
        sub = table_ref(x.parts[i])
        if sub is None:
            return None
        return [(put(i, t), 'map', None, {put(i, s): c for s, c in cells.items()}) for t, _, _, cells in sub]
    if any(x.parts[i].card > 12 for i in plural):
        return None
    idx = [{s: k for k, s in enumerate(x.parts[i].ss)} for i in plural]
    coord = {}
    for s in x.ss:
        c = [idx[k][s.parts[i]] for k, i in enumerate(plural)]
        coord[s] = tuple(c + [0] * (3 - len(c)))
    if len(plural) == 2:
        return [(x, [put(plural[0], s) for s in x.parts[plural[0]].ss],
                 [put(plural[1], s) for s in x.parts[plural[1]].ss], coord)]
    res = []
    for k, s in enumerate(x.parts[2].ss):
        res.append((R.prod([x.parts[0], x.parts[1], s]),
                    [R.prod([h, x.parts[1], s]) for h in x.parts[0].ss],
                    [R.prod([x.parts[0], h, s]) for h in x.parts[1].ss],
                    {q: (c[0], c[1], 0) for q, c in coord.items() if c[2] == k}))
    return res


def disjoint(x):
    return len(set(x.ss)) == x.card


@case('P08')
def tables(r):
    x = R.ref(r)
    s = norm(x)
    exp = table_ref(x)
    if exp is None:
        try:
            s.cells
        except ValueError:
            return True
        raise Violation('a table of %s with more than 12 headers is accepted' % x)
    if not disjoint(x):
        return False
    equal([str(t) for t in s.tables_script], [t.text for t, _, _, _ in exp], 'tables of %s' % x)
    # every singular sequence is in exactly one cell
    seen = [str(c) for a in s.cells for c in np.asarray(a).flatten()]
    equal(sorted(seen), sorted(q.text for q in x.ss), 'cells of %s' % x)
    for a in s.cells:
        equal(np.asarray(a).ndim, 3, 'dimensions of a table of %s' % x)
    # where
    tabs = []
    for a in s.cells:
        a = np.asarray(a)
        if len(s.cells) == 1 and len(exp) > 1:
            # a 3d table, one table script per tab
            equal(a.shape[2], len(exp), 'number of tabs of %s' % x)
            for k in range(a.shape[2]):
                tabs.append(a[:, :, k:k + 1])
        elif a.shape[2] > 1:
            for k in range(a.shape[2]):
                tabs.append(a[:, :, k:k + 1])
        else:
            tabs.append(a)
    equal(len(tabs), len(exp), 'number of tables of %s' % x)
    for a, (t, rows, cols, coord) in zip(tabs, exp):
        got = {str(a[i]): list(i) for i in np.ndindex(*a.shape)}
        equal(got, {q.text: list(c) for q, c in coord.items()}, 'coordinates in the table %s of %s' % (t, x))
    if x.card == 1:
        equal(list(s.headers), [], 'headers of %s' % x)
        return False
    equal(len(s.headers), len(exp), 'number of headers of %s' % x)
    for h, (t, rows, cols, coord), a in zip(s.headers, exp, tabs):
        if isinstance(rows, list):
            equal([str(c) for c in h[0]], [c.text for c in rows], 'rows of %s' % t)
            equal([str(c) for c in h[1]], [c.text for c in cols], 'columns of %s' % t)
            # a header contains the cells of its row / column
            for i, hh in enumerate(h[0]):
                for j, vv in enumerate(h[1]):
                    check(a[i, j, 0] in hh and a[i, j, 0] in vv, 'cell %s of %s is not in its headers', str(a[i, j, 0]), t)
        elif rows == 'self':
            equal([[str(c) for c in l] for l in h], [[t.text]], 'headers of %s' % t)
    return True


@case('P08')
def tables_partition(r):
    """the table scripts of a script partition its singular sequences"""
    x = R.ref(r)
    if table_ref(x) is None or not disjoint(x):
        return False
    s = norm(x)
    seqs = [str(q) for t in s.tables_script for q in t.singular_sequences]
    equal(sorted(seqs), sorted(q.text for q in x.ss), 'sequences of the tables of %s' % x)
    for t in s.tables_script:
        check(t in s, 'table %s in %s', str(t), x)
    return x.card > 1


@generator('P08')
def g08(rng, tier):
    for i, t in enumerate(itertools.product(['E', 'U', 'O', 'M', ['a', 'E', 'S'], 'F'], repeat=3)):
        if i % rng.nparts == rng.part:
            yield tables, (['m'] + list(t),)
    n = 2500 if tier == 'quick' else 25000
    for i in range(n):
        layer = rng.choice([0, 1, 1, 1, 2, 2, 3, 4])
        r = gen.bounded_recipe(rng, layer, maxcard=rng.choice([4, 12, 40, 120, 300]), mincard=rng.choice([1, 2, 4]))
        yield tables, (r,)
        if i % 3 == 0:
            yield tables_partition, (r,)
        if i % 5 == 0:
            # sums of scripts of several tables
            def several(l):
                if l == 1:
                    return ['m'] + [rng.choice(['O', 'M', 'O', 'U', ['a', 'E', 'S'], 'A', 'E']) for _ in range(3)]
                if rng.random() < 0.6:
                    a = ['a'] + [several(l - 1) for _ in range(rng.choice([2, 2, 3]))]
                else:
                    a = several(l - 1)
                e = [gen.singular(rng, l - 1), ['n', l - 1]]
                rng.shuffle(e)
                e.insert(rng.randrange(3), a)
                return ['m'] + e
            l = rng.choice([2, 2, 3])
            rr = ['a'] + [several(l) for _ in range(rng.choice([1, 2, 2, 3]))]
            try:
                ok = R.ref(rr).card <= 400
            except R.Rejected:
                ok = False
            if ok:
                yield tables, (rr,)
                yield tables_partition, (rr,)
        if i % 6 == 0 and layer >= 1:
            # more than 12 headers
            a = gen.bounded_recipe(rng, layer, maxcard=20, mincard=10)
            b = rng.choice(['O', 'M'])
            rr = ['m', a, wrap_to(b, layer)] if rng.random() < 0.5 else ['m', wrap_to(b, layer), a]
            try:
                R.ref(rr)
            except R.Rejected:
                continue
            yield tables, (rr,)
