"""Bounded cases on USLs, paths and decorations (P09-P15)."""
import itertools
import random

from . import ref as R, gen
from .core import case, generator, check, equal, Violation, Skip, raises
from ieml.dictionary.script import Script, NullScript, script
from ieml.exceptions import CannotParse
from ieml.usl import PolyMorpheme, Lexeme, Word
from ieml.usl.usl import usl, USL
from ieml.usl.polymorpheme import check_polymorpheme
from ieml.usl.word import check_word
from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole, ProcessSyntagmaticFunction, \
    DependantQualitySyntagmaticFunction, IndependantQualitySyntagmaticFunction
from ieml.usl.constants import FLEXION_SCRIPTS, JUNCTION_SCRIPTS, JUNCTION_INDEX
from ieml.usl.parser import IEMLParser
from ieml.usl.decoration.parser.parser import PathParser
from ieml.usl.decoration.path import UslPath, PolymorphemePath, FlexionPath, LexemePath, RolePath, GroupIndex, \
    LexemeIndex, DeferenceError, usl_from_path_values
from ieml.usl.decoration.instance import InstancedUSL, Decoration

PARSER = IEMLParser()
PATHS = PathParser()

VALENCES = ['E:S:.', 'E:T:.', 'E:B:.']
ACTANTS = ['E:.n.-', 'E:.d.-', 'E:.k.-', 'E:.t.-', 'E:.l.-', 'E:.m.-', 'E:.f.-', 'E:.s.-']
INDEP, DEP = 'E:U:.', 'E:A:.'
LINKS = [str(s) for s in JUNCTION_SCRIPTS]
INDEX = [str(s) for s in JUNCTION_INDEX]
FLEX = [[str(t) for t in s.singular_sequences] for s in FLEXION_SCRIPTS]
FLEX_ALL = sorted({t for f in FLEX for t in f})


# ---------------------------------------------------------------- generation

# texts which start as other tokens do
TRICKY = ["E:.b.E:S:.-", "E:.b.E:B:.-x.E:A:.b.-'", "E:.b.E:T:.-'", "E:.b.E:A:.-", "E:.b.E:U:.-b.-'", "m.", "m.i.-", "E:.m.-", "c.", "g.o.-"]


def morpheme(rng):
    if rng.random() < 0.04:
        return rng.choice(TRICKY)
    l = rng.choice([0, 0, 1, 1, 2, 2, 3, 4])
    while True:
        x = R.ref(gen.singular(rng, l))
        if not x.empty:
            return x.text


def distinct_morphemes(rng, n, used=None):
    used = set() if used is None else used
    res = []
    while len(res) < n:
        m = morpheme(rng)
        if m not in used:
            used.add(m)
            res.append(m)
    return res


def gen_pm(rng, groups=None, consts=None, used=None, maxg=3, empties=0.05):
    used = set() if used is None else used
    nc = (rng.choice([0, 1, 1, 2, 3]) if rng.random() < 0.94 else rng.randint(4, 9)) if consts is None else consts
    ng = rng.choice([0, 0, 1, 1, 2, 3]) if groups is None else groups
    ng = min(ng, maxg)
    g = []
    for _ in range(ng):
        k = rng.choice([1, 2, 2, 3])
        g.append([distinct_morphemes(rng, k, used), rng.randint(1, min(k, 3))])
    c = distinct_morphemes(rng, nc, used)
    if rng.random() < empties:
        c.insert(rng.randint(0, len(c)), rng.choice(['E:', 'E:.', "E:.-'"]))
    if g and rng.random() < empties:
        m = rng.choice(g)[0]
        m.insert(rng.randint(0, len(m)), 'E:')
    return {'c': c, 'g': g}


def gen_flexion(rng, groups=True):
    """an inflection the paths can rebuild: one constant or one group of multiplicity 1 per root"""
    c, g, used = [], [], set()
    owner = {}
    for i in rng.sample(range(len(FLEX)), rng.choice([0, 1, 1, 2, 3])):
        own = [t for t in FLEX[i] if sum(t in f for f in FLEX) == 1]
        if not own:
            continue
        if groups and len(g) < 3 and len(own) > 1 and rng.random() < 0.35:
            g.append([rng.sample(own, min(len(own), rng.randint(2, 3))), 1])
        else:
            c.append(rng.choice(own))
    return {'c': c, 'g': g}


def gen_lexeme(rng, used=None, plural=True):
    k = rng.random()
    maxg = 1 if plural else 0
    f = {'c': [], 'g': []} if k < 0.3 else gen_flexion(rng, groups=plural)
    c = {'c': [], 'g': []} if k > 0.93 else gen_pm(rng, used=used, maxg=maxg)
    return [f, c]


def gen_roles(rng, kind, depth=2, used=None, plural=True):
    """-> [[address, lexeme]] of a subtree"""
    res = []
    lex = lambda: gen_lexeme(rng, used, plural and rng.random() < 0.4)
    if kind == 'process':
        res.append([[rng.choice(VALENCES)], lex()])
        for a in rng.sample(ACTANTS, rng.choice([0, 1, 1, 2])):
            res += [[[a] + p, l] for p, l in gen_roles(rng, 'dep', depth - 1, used, plural)]
    elif depth > 0 and rng.random() < 0.25:
        link = rng.choice(LINKS)
        n = rng.choice([1, 2, 2, 2, 3, 3, 3, 4, 5, rng.randint(4, len(INDEX))])
        for i in range(n):
            res += [[[link, INDEX[i]] + p, l] for p, l in gen_roles(rng, kind, depth - 1 if n < 4 else 0, used, plural and n < 6)]
    else:
        res.append([[], lex()])
        if kind == 'dep' and depth > 0:
            if rng.random() < 0.35:
                res += [[[INDEP] + p, l] for p, l in gen_roles(rng, 'indep', depth - 1, used, plural)]
            if rng.random() < 0.35:
                res += [[[DEP] + p, l] for p, l in gen_roles(rng, 'dep', depth - 1, used, plural)]
    return res


def gen_word(rng, used=None, plural=True, kind=None):
    kind = kind or rng.choice(['process', 'process', 'dep', 'dep', 'indep'])
    roles = gen_roles(rng, kind, used=used, plural=plural)
    prefix = {'process': [], 'dep': [DEP], 'indep': [INDEP]}[kind]
    roles = [[prefix + p, l] for p, l in roles]
    if kind == 'indep' and len(roles) == 0:
        raise Skip()
    focus = rng.choice(roles)[0]
    return {'roles': roles, 'focus': focus}


# ---------------------------------------------------------------- building the real objects

def b_pm(p):
    return PolyMorpheme(constant=[script(m) for m in p['c']], groups=[([script(m) for m in g], n) for g, n in p['g']])


def b_lexeme(l):
    return Lexeme(pm_flexion=b_pm(l[0]), pm_content=b_pm(l[1]))


def b_role(r):
    return SyntagmaticRole([script(x) for x in r])


def b_word(w, order=None):
    l = [([script(x) for x in a], b_lexeme(x)) for a, x in w['roles']]
    if order is not None:
        l = [l[i] for i in order]
    ctx, f = SyntagmaticFunction.from_list(l)
    return Word(f, b_role(w['focus']), ctx)


def ref_word_entries(w):
    """address -> text of the lexeme (addresses as tuples)"""
    return {tuple(a): R.lexeme_text(l) for a, l in w['roles']}


def build(u):
    kind, r = u
    return {'pm': b_pm, 'lexeme': b_lexeme, 'word': b_word, 'script': script}[kind](r)


def gen_usl(rng, **kw):
    k = rng.random()
    if k < 0.35:
        return ['pm', gen_pm(rng)]
    if k < 0.6:
        return ['lexeme', gen_lexeme(rng)]
    return ['word', gen_word(rng)]


def shuffled_pm(rng, p):
    c = list(p['c'])
    g = [[list(m), n] for m, n in p['g']]
    rng.shuffle(c)
    rng.shuffle(g)
    for m, _ in g:
        rng.shuffle(m)
    return {'c': c, 'g': g}


# ---------------------------------------------------------------- P09

def same_pm(x, p, what):
    c, g = R.pm(p)
    equal(str(x), R.pm_text(p), what + ': text')
    equal([str(s) for s in x.constant], [s.text for s in c] or ['E:'], what + ': constants')
    equal([([str(s) for s in m], n) for m, n in x.groups], [([s.text for s in m], n) for m, n in g], what + ': groups')
    equal(bool(x.empty), not c and not g, what + ': empty')
    equal(bool(x), not (not c and not g), what + ': truth')
    equal(x.grammatical_class, max([s.cls for s in c], default=R.AUX), what + ': class')


@case('P09')
def pm_normal(p, seed):
    x = b_pm(p)
    same_pm(x, p, 'polymorpheme')
    y = b_pm(shuffled_pm(random.Random(seed), p))
    same_pm(y, p, 'polymorpheme, in another order')
    equal(x == y, True, 'equality of two orders')
    return bool(p['c'] or p['g'])


@case('P09')
def pm_text(p, seed):
    x = b_pm(p)
    c, g = R.pm(p)
    t = R.pm_text(p)
    if not t:
        y = PARSER.parse('')
        equal(str(y), 'E:', 'parsed empty text')
        return False
    y = PARSER.parse(str(x))
    if len(c) == 1 and not g:
        check(isinstance(y, Script), 'the text of a single morpheme is read as a %s', type(y).__name__)
        equal(str(y), t, 'text')
        y = usl(y)
    check(type(y) is PolyMorpheme, 'the text %r is read as a %s', t, type(y).__name__)
    same_pm(y, p, 'parsed polymorpheme')
    equal(y == x and hash(y) == hash(x), True, 'parsed equal to the original, with the same hash')
    # another spelling
    q = shuffled_pm(random.Random(seed), p)
    if g:
        q2 = {'c': q['c'], 'g': [[[m for m in ms if not R.parse(m).empty] or ms, n] for ms, n in q['g']]}
        alt = '  '.join(q2['c'] + ['m%d ( %s )' % (n, '  '.join(m)) for m, n in q2['g']])
        z = PARSER.parse(alt)
        same_pm(z, p, 'polymorpheme read from %r' % alt)
    return True


def same_lexeme(x, l, what):
    equal(str(x), R.lexeme_text(l), what + ': text')
    same_pm(x.pm_flexion, l[0], what + ': flexion')
    same_pm(x.pm_content, l[1], what + ': content')
    equal(x.grammatical_class, x.pm_content.grammatical_class, what + ': class')
    e = not R.pm_text(l[0]) and not R.pm_text(l[1])
    equal(bool(x.empty), e, what + ': empty')


@case('P09')
def lexeme_text(l, seed):
    x = b_lexeme(l)
    same_lexeme(x, l, 'lexeme')
    y = PARSER.parse(str(x))
    check(type(y) is Lexeme, 'the text %r is read as a %s', str(x), type(y).__name__)
    same_lexeme(y, l, 'parsed lexeme')
    equal(y == x and hash(y) == hash(x), True, 'parsed equal to the original, with the same hash')
    rng = random.Random(seed)
    z = b_lexeme([shuffled_pm(rng, l[0]), shuffled_pm(rng, l[1])])
    same_lexeme(z, l, 'lexeme, in another order')
    return True


@case('P09')
def lexeme_three(addr, content, trans):
    """the older writing with three polymorphemes: the first and the third make the flexion"""
    if not addr['c'] + addr['g'] or not content['c'] + content['g'] or not trans['c'] + trans['g']:
        return False
    t = '(%s)(%s)(%s)' % tuple(R.pm_text(p) for p in (addr, content, trans))
    same_lexeme(PARSER.parse(t), [{'c': addr['c'] + trans['c'], 'g': addr['g'] + trans['g']}, content], t)
    t = '()(%s)(%s)' % tuple(R.pm_text(p) for p in (content, trans))
    same_lexeme(PARSER.parse(t), [trans, content], t)
    t = '()()(%s)' % R.pm_text(trans)
    same_lexeme(PARSER.parse(t), [trans, {'c': [], 'g': []}], t)


def entries(w):
    return {tuple(str(s) for s in a): str(x) for a, x in w.syntagmatic_fun.as_list(w.context_type)}


KIND = {'process': ProcessSyntagmaticFunction, 'dep': DependantQualitySyntagmaticFunction,
        'indep': IndependantQualitySyntagmaticFunction}


def kind_of(w):
    a = w['roles'][0][0][0]
    return 'dep' if a == DEP else 'indep' if a == INDEP else 'process'


def same_word(x, w, what):
    equal(entries(x), ref_word_entries(w), what + ': lexemes by role')
    equal(tuple(str(s) for s in x.role.constant), tuple(w['focus']), what + ': role singled out')
    equal(x.context_type, KIND[kind_of(w)], what + ': kind of function')


@case('P09')
def word_text(w, seed):
    x = b_word(w)
    same_word(x, w, 'word')
    t = str(x)
    parts = t[1:-1].split(' > ')
    exp = {('! ' if a == tuple(w['focus']) else '') + ' '.join(a) + ' ' + l for a, l in ref_word_entries(w).items()}
    equal(sorted(' '.join(p.split()) for p in parts), sorted(' '.join(p.split()) for p in exp), 'pieces of the text of the word')
    y = PARSER.parse(t)
    check(type(y) is Word, 'the text %r is read as a %s', t, type(y).__name__)
    same_word(y, w, 'parsed word')
    equal(str(y), t, 'text of the parsed word')
    equal(y == x and hash(y) == hash(x), True, 'parsed equal to the original, with the same hash')
    order = list(range(len(w['roles'])))
    random.Random(seed).shuffle(order)
    z = b_word(w, order)
    equal(str(z), t, 'text of the word built with its roles in another order')
    pieces = [('! ' if w['roles'][i][0] == w['focus'] else '') + ' '.join(w['roles'][i][0]) + ' ' + R.lexeme_text(w['roles'][i][1])
              for i in order]
    equal(str(PARSER.parse('[' + ' > '.join(pieces) + ']')), t, 'text of the word read with its roles in another order')
    return True


@case('P09')
def word_junction_text(w, k, seed):
    """a word whose role singled out is a junction: all the lexemes joined are marked"""
    js = [a[:i] for a, _ in w['roles'] for i, s in enumerate(a) if s in LINKS]
    js = [f for f in js if len({a[len(f) + 1] for a, _ in w['roles'] if a[:len(f)] == f}) > 1]
    if not js:
        return False
    w = {'roles': w['roles'], 'focus': js[k % len(js)]}
    x = b_word(w)
    y = PARSER.parse(str(x))
    check(type(y) is Word, 'the text %r is read as a %s', str(x), type(y).__name__)
    equal([str(s) for s in y.role.constant], w['focus'], 'role singled out read from %s' % x)
    equal(str(y), str(x), 'text of the parsed word')
    equal(y == x and hash(y) == hash(x), True, 'parsed equal to the original, with the same hash')
    equal(entries(y), entries(x), 'roles of the parsed word')
    pieces = str(x)[1:-1].split(' > ')
    random.Random(seed).shuffle(pieces)
    equal(str(PARSER.parse('[' + ' > '.join(pieces) + ']')), str(x), 'text of the word read with its roles in another order')
    return True


def read_token(lx, before, text, rest, token):
    lx.input(before + text + rest)
    got = [(k.type, k.value, k.lexpos) for k in lx]
    check((token, text, len(before)) in got, 'the text %r in %r is not read as %s: %s', text, before + text + rest, token, got)
    return True


@case('P09')
def token(before, text, rest, token):
    from ieml.usl.parser.lexer import get_lexer
    return read_token(get_lexer(), before, text, rest, token)


@case('P13')
def path_token(before, text, rest, token):
    from ieml.usl.decoration.parser.lexer import get_lexer
    return read_token(get_lexer(), before, text, rest, token)


@case('P09')
def idempotent_cast(u):
    x = build(u)
    equal(usl(x) is x, True, 'usl(usl) is the usl')
    s = script(morpheme(random.Random(str(u))))
    y = usl(s)
    check(type(y) is PolyMorpheme and [str(m) for m in y.constant] == [str(s)] and not y.groups, 'usl(%s) = %s', str(s), str(y))


MALFORMED = ['(U:', 'U:)', '[! E:S:. (U:)', '[E:S:. (U:)]', 'm1()', 'm1(U:', 'U: m1', '[]', '[! E:S:.]', '(U:)(A:)(S:)(B:)',
             'U: (A:)', '!U:', '[! E:S:. ()(U:) > > E:.n.- ()(U:)]', 'U: > A:', '[! E:S:. ()(U:)] [>role]', 'U:.U:',
             'E:.U:.', 'wa', 'wa.wa.', 'U:A:S:B:.', 'm1(m1(U:))', '[! U:. (A:)]', '[! E:S:. ()(U:) > ! E:T:. ()(U:)]',
             'U:.A:-', '[! E:.n.- ()(U:)]', 'U: A: [>constant>U: x]', '(U:)(A:)(S:)(B:)(T:)', '[! (U:)', ')(', '> U:']


@case('P09')
def malformed(t):
    try:
        r = PARSER.parse(t)
    except CannotParse:
        return True
    raise Violation('%r is accepted and read as %s' % (t, r))


@case('P09')
def broken_text(u, cut, kind):
    """a well formed text of a lexeme or word with a bracket removed or doubled is refused"""
    t = str(build(u))
    pos = [i for i, c in enumerate(t) if c in '()[]']
    if not pos:
        return False
    i = pos[cut % len(pos)]
    s = t[:i] + t[i + 1:] if kind == 0 else t[:i] + t[i] + t[i:]
    try:
        r = PARSER.parse(s)
    except CannotParse:
        return True
    raise Violation('%r is accepted and read as %s' % (s, r))


@generator('P09')
def g09(rng, tier):
    if rng.part == 0:
        for t in MALFORMED:
            yield malformed, (t,)
    n = 260 if tier == 'quick' else 8000
    for i in range(n):
        s = rng.randrange(1000)
        yield pm_normal, (gen_pm(rng, empties=0.2), s)
        yield pm_text, (gen_pm(rng), s)
        yield lexeme_text, (gen_lexeme(rng), s)
        yield word_text, (gen_word(rng), s)
        yield word_junction_text, (gen_word(rng), rng.randrange(7), s)
        if i % 4 == 0:
            used = set()
            yield lexeme_three, ([gen_pm(rng, used=used, maxg=1, empties=0) for _ in range(3)])
            yield idempotent_cast, (gen_usl(rng),)
            k = rng.choice(['lexeme', 'word'])
            yield broken_text, ([k, gen_lexeme(rng) if k == 'lexeme' else gen_word(rng)], rng.randrange(20), rng.randrange(2))


# ---------------------------------------------------------------- P10

@case('P10')
def pm_singular_sequences(p):
    x = b_pm(p)
    got = [str(s) for s in x.singular_sequences]
    exp = R.pm_ss(p)
    equal(sorted(got), sorted(exp), 'singular sequences of %s' % x)
    equal(x.cardinal, len(exp), 'cardinal of %s' % x)
    equal(len(x), len(exp), 'len of %s' % x)
    equal(x.is_singular, len(exp) == 1, 'is_singular of %s' % x)
    equal({str(s) for s in x.singular_sequences_set}, exp, 'set of singular sequences of %s' % x)
    for s in x.singular_sequences:
        check(type(s) is PolyMorpheme and not s.groups and s.cardinal == 1 and [str(t) for t in s.singular_sequences] == [str(s)],
              'singular sequence %s of %s is not a singular polymorpheme', str(s), str(x))
        equal(s in x, True, '%s in %s' % (s, x))
    c, g = R.pm(p)
    equal([str(m) for m in x.morphemes], [m.text for m in R.sort(set((c or [R.parse('E:')]) + [m for ms, _ in g for m in ms]))],
          'morphemes of %s' % x)
    return bool(p['g'])


@case('P10')
def pm_containment(p, q):
    x, y = b_pm(p), b_pm(q)
    equal(bool(x in y), R.pm_ss(p) <= R.pm_ss(q), '%s in %s' % (x, y))
    return True


@case('P10')
def pm_check(p, defect):
    """p is well formed; defect says how to spoil it"""
    x = b_pm(p)
    ok = True
    if defect == 'none':
        pass
    elif defect == 'paradigm':
        q = {'c': p['c'] + ['O:.'], 'g': p['g']}
        x, ok = b_pm(q), False
    elif defect == 'paradigm_group':
        q = {'c': p['c'], 'g': p['g'] + [[['M:.', 'n.'], 1]]}
        x, ok = b_pm(q), False
    elif defect == 'dup_const':
        if not p['c']:
            return False
        x, ok = b_pm({'c': p['c'] + [p['c'][0]], 'g': p['g']}), False
    elif defect == 'dup_cross':
        if not p['c'] or not p['g']:
            return False
        x, ok = b_pm({'c': p['c'], 'g': [[p['g'][0][0] + [p['c'][-1]], p['g'][0][1]]] + p['g'][1:]}), False
    elif defect == 'dup_groups':
        if len(p['g']) < 2:
            return False
        x, ok = b_pm({'c': p['c'], 'g': [[p['g'][0][0] + [p['g'][1][0][0]], p['g'][0][1]]] + p['g'][1:]}), False
    elif defect == 'dup_group':
        if not p['g']:
            return False
        x, ok = b_pm({'c': p['c'], 'g': [[p['g'][0][0] + [p['g'][0][0][0]], p['g'][0][1]]] + p['g'][1:]}), False
    elif defect == 'mult0':
        if not p['g']:
            return False
        x, ok = b_pm({'c': p['c'], 'g': p['g'][:-1] + [[p['g'][-1][0], 0]]}), False
    elif defect == 'mult4':
        q = {'c': p['c'], 'g': [[['wo.-', 'wa.-', 'y.-', 'o.-', 'e.-'], 4]] + p['g']}
        x, ok = b_pm(q), False
    elif defect == 'mult_many':
        if not p['g']:
            return False
        x, ok = b_pm({'c': p['c'], 'g': [[p['g'][0][0], len(p['g'][0][0]) + 1]] + p['g'][1:]}), False
    elif defect == 'not_script':
        x.constant = x.constant + ('U:',)
        ok = False
    elif defect == 'unsorted':
        if len(p['c']) < 2:
            return False
        x.constant = tuple(reversed(x.constant))
        ok = False
    elif defect == 'unsorted_group':
        l = [i for i, g in enumerate(x.groups) if len(g[0]) > 1]
        if not l:
            return False
        g = list(x.groups)
        g[l[0]] = (tuple(reversed(g[l[0]][0])), g[l[0]][1])
        x.groups = tuple(g)
        ok = False
    elif defect == 'unsorted_groups':
        if len(x.groups) < 2:
            return False
        x.groups = tuple(reversed(x.groups))
        ok = False
    try:
        r = check_polymorpheme(x)
        x.check()
    except ValueError as e:
        check(not ok, 'the well formed polymorpheme %s is refused: %s', str(x), e)
    else:
        check(ok, 'the polymorpheme %s (%s) is accepted', str(x), defect)
    return True


DEFECTS = ['none', 'paradigm', 'paradigm_group', 'dup_const', 'dup_cross', 'dup_groups', 'dup_group', 'mult0', 'mult4', 'mult_many', 'not_script',
           'unsorted', 'unsorted_group', 'unsorted_groups']


@generator('P10')
def g10(rng, tier):
    shapes = []
    for sizes in itertools.chain.from_iterable(itertools.product([1, 2, 3, 4], repeat=k) for k in (1, 2, 3)):
        for mults in itertools.product(*[range(1, min(s, 3) + 1) for s in sizes]):
            for nc in (0, 1, 2, 4, 5):
                shapes.append((nc, sizes, mults))
    for i, (nc, sizes, mults) in enumerate(shapes):
        if i % rng.nparts != rng.part:
            continue
        used = set()
        yield pm_singular_sequences, ({'c': distinct_morphemes(rng, nc, used),
                                       'g': [[distinct_morphemes(rng, s, used), m] for s, m in zip(sizes, mults)]},)
    n = 150 if tier == 'quick' else 3000
    for i in range(n):
        yield pm_singular_sequences, (gen_pm(rng),)
        used = set()
        p = gen_pm(rng, used=used, empties=0)
        for d in DEFECTS:
            yield pm_check, (p, d)
        q = {'c': p['c'], 'g': [[list(m), k] for m, k in p['g']]}
        if q['g'] and rng.random() < 0.5:
            q['g'][0][0].append(distinct_morphemes(rng, 1, used)[0])
        elif q['g'] and q['g'][0][1] > 1:
            q['g'][0][1] -= 1
        yield pm_containment, (p, q)
        yield pm_containment, (q, p)


# ---------------------------------------------------------------- P11

@case('P11')
def usl_pair(a, b):
    x, y = build(a), build(b)
    same = str(x) == str(y) and type(x) is type(y)
    equal(x == y, same, '%s == %s' % (x, y))
    equal(x != y, not same, '%s != %s' % (x, y))
    if same:
        equal(hash(x), hash(y), 'hash')
    l, g = bool(x < y), bool(y < x)
    check(l + g + same == 1, 'not exactly one of <, ==, > for %s and %s: %s %s %s', str(x), str(y), l, same, g)
    equal(bool(x < x), False, '%s < itself' % x)
    return not same


@case('P11')
def usl_triple(a, b, c):
    s = [build(x) for x in (a, b, c)]
    for x, y, z in itertools.permutations(s):
        if x < y and y < z:
            check(x < z, 'not transitive: %s < %s < %s', str(x), str(y), str(z))
    return len({str(x) for x in s}) == 3


@case('P11')
def usl_sort(l, perm):
    s = [build(x) for x in l]
    a = [str(x) for x in sorted(s)]
    equal([str(x) for x in sorted(s[i] for i in perm)], a, 'sorted in another arrangement')
    return len(set(a)) > 2


@case('P11')
def role_pair(a, b, c):
    x, y, z = b_role(a), b_role(b), b_role(c)
    same = a == b
    equal(x == y, same, '%s == %s' % (a, b))
    if same:
        equal(hash(x), hash(y), 'hash')
    l, g = bool(x < y), bool(y < x)
    check(l + g + same == 1, 'not exactly one of <, ==, > for the roles %s and %s: %s %s %s', a, b, l, same, g)
    for p, q, r in itertools.permutations([x, y, z]):
        if p < q and q < r:
            check(p < r, 'not transitive: %s < %s < %s', str(p), str(q), str(r))
    return not same


def vary_pm(rng, p):
    p = {'c': list(p['c']), 'g': [[list(m), n] for m, n in p['g']]}
    used = set(p['c']) | {m for g, _ in p['g'] for m in g}
    k = rng.random()
    if k < 0.2 and p['g']:
        g = rng.choice(p['g'])
        g[1] = rng.choice([x for x in (1, 2, 3) if x != g[1]])
    elif k < 0.4 and p['g']:
        g = rng.choice(p['g'])
        g[0][rng.randrange(len(g[0]))] = distinct_morphemes(rng, 1, used)[0]
    elif k < 0.5 and p['g']:
        p['g'].pop(rng.randrange(len(p['g'])))
    elif k < 0.6 and len(p['g']) < 3:
        p['g'].append([distinct_morphemes(rng, 2, used), 1])
    elif k < 0.8 and p['c']:
        p['c'][rng.randrange(len(p['c']))] = distinct_morphemes(rng, 1, used)[0]
    elif k < 0.9 and p['c']:
        p['c'].pop()
    else:
        p['c'].append(distinct_morphemes(rng, 1, used)[0])
    return p


def vary_lexeme(rng, l):
    k = rng.random()
    if k < 0.4:
        return [gen_flexion(rng), l[1]]
    if k < 0.5:
        return [l[1], l[0]]
    return [l[0], vary_pm(rng, l[1])]


def vary_word(rng, w):
    k = rng.random()
    roles = [[a, l] for a, l in w['roles']]
    if k < 0.25 and len(roles) > 1:
        return {'roles': roles, 'focus': rng.choice(roles)[0]}
    if k < 0.6:
        i = rng.randrange(len(roles))
        roles[i][1] = vary_lexeme(rng, roles[i][1])
        return {'roles': roles, 'focus': w['focus']}
    if k < 0.75 and kind_of(w) == 'process':
        v = rng.choice(VALENCES)
        f = [v] if w['focus'][0] in VALENCES else w['focus']
        return {'roles': [[[v] if a[0] in VALENCES else a, l] for a, l in roles], 'focus': f}
    if k < 0.82 and len(roles) > 1:
        # without one of the qualities or actants
        heads = sorted({tuple(a[:i + 1]) for a, _ in roles for i, x in enumerate(a) if i and x in (DEP, INDEP) and x not in LINKS} |
                       {tuple(a[:1]) for a, _ in roles if a[0] in ACTANTS})
        if heads:
            h = list(rng.choice(heads))
            r = [[a, l] for a, l in roles if a[:len(h)] != h]
            if r:
                return {'roles': r, 'focus': w['focus'] if w['focus'] in [a for a, _ in r] else r[0][0]}
    if k < 0.85 and kind_of(w) != 'process' and len(roles) == 1 and len(roles[0][0]) == 1:
        o = {DEP: INDEP, INDEP: DEP}[roles[0][0][0]]
        return {'roles': [[[o], roles[0][1]]], 'focus': [o]}
    # with a junction at the top or not
    if kind_of(w) != 'process':
        p = roles[0][0][:1]
        if all(len(a) > 2 and a[1] in LINKS for a, _ in roles):
            sub = [[p + a[3:], l] for a, l in roles if a[2] == INDEX[0]]
            return {'roles': sub, 'focus': sub[0][0]}
        link = rng.choice(LINKS)
        sub = [[p + [link, INDEX[0]] + a[1:], l] for a, l in roles]
        return {'roles': sub, 'focus': sub[0][0]}
    return gen_word(rng)


def vary(rng, u):
    k, r = u
    return [k, {'pm': vary_pm, 'lexeme': vary_lexeme, 'word': vary_word}[k](rng, r)]


def gen_role(rng):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    return [rng.choice(VALENCES + ACTANTS + [DEP, INDEP] + LINKS[:4] + INDEX[:3]) for _ in range(n)]


@generator('P11')
def g11(rng, tier):
    n = 260 if tier == 'quick' else 8000
    for i in range(n):
        a = gen_usl(rng)
        b = vary(rng, a)
        c = vary(rng, rng.choice([a, b]))
        d = gen_usl(rng)
        yield usl_pair, (a, b)
        yield usl_pair, (a, c)
        yield usl_pair, (a, d)
        yield usl_triple, (a, b, c)
        yield usl_triple, (a, d, c)
        if i % 6 == 0:
            l = [a, b, c, d] + [gen_usl(rng) for _ in range(3)]
            perm = list(range(len(l)))
            rng.shuffle(perm)
            yield usl_sort, (l, perm)
        x, y, z = gen_role(rng), gen_role(rng), gen_role(rng)
        yield role_pair, (x, y, z)
        yield role_pair, (x, x + y[:1], z)


# ---------------------------------------------------------------- P12

@case('P12')
def word_list(w, seed):
    order = list(range(len(w['roles'])))
    random.Random(seed).shuffle(order)
    for o in (None, order):
        x = b_word(w, o)
        same_word(x, w, 'word')
        l = x.syntagmatic_fun.as_list(x.context_type)
        equal(len(l), len(w['roles']), 'number of roles listed')
        k = kind_of(w)
        for a, le in w['roles']:
            got = x.syntagmatic_fun.get(b_role(a), ignore_prefix=True, ignore_process_valence=True)
            equal(str(got), R.lexeme_text(le), 'lexeme of the role %s' % a)
    ctx, f = SyntagmaticFunction.from_list(l)
    equal(ctx, KIND[kind_of(w)], 'kind of function of the list')
    equal(entries(Word(f, x.role, ctx)), ref_word_entries(w), 'list, built, listed')
    exp = {m.text for _, le in w['roles'] for q in le for m in ms_of(q)}
    equal([str(m) for m in x.morphemes], [m.text for m in R.sort(map(R.parse, exp))], 'morphemes of the word')
    r = x.role.constant
    cls = 'E:.b.E:S:.-' if w['focus'][0] in VALENCES else 'E:.b.E:T:.-' if INDEP in w['focus'] else 'E:.b.E:B:.-'
    equal(str(x.grammatical_class), cls, 'grammatical class of the word with role %s' % w['focus'])
    return True


def ms_of(p):
    c, g = R.pm(p)
    return (c or [R.parse('E:')]) + [m for ms, _ in g for m in ms]


def lexeme_ss(l):
    def parts(p):
        return R.pm_ss(p)
    return {'(%s)(%s)' % (f, c) if c else '(%s)' % f for f in parts(l[0]) for c in parts(l[1])}


@case('P12')
def lexeme_singular_sequences(l):
    x = b_lexeme(l)
    got = [str(s) for s in x.singular_sequences]
    exp = lexeme_ss(l)
    equal(sorted(got), sorted(exp), 'singular sequences of %s' % x)
    equal(x.cardinal, len(exp), 'cardinal of %s' % x)
    equal(x.is_singular, len(exp) == 1, 'is_singular of %s' % x)
    for s in x.singular_sequences:
        check(type(s) is Lexeme, 'type of a singular sequence')
    equal([str(m) for m in x.morphemes], [m.text for m in R.sort({m for q in l for m in ms_of(q)})], 'morphemes of %s' % x)
    return len(exp) > 1


@case('P12')
def word_singular_sequences(w):
    exp = [{}]
    for a, l in w['roles']:
        exp = [dict(e, **{' '.join(a): t}) for e in exp for t in sorted(lexeme_ss(l))]
        if len(exp) > 600:
            return False
    x = b_word(w)
    got = list(x.singular_sequences)
    exp_s = sorted(sorted(e.items()) for e in exp)
    got_s = sorted(sorted((' '.join(a), t) for a, t in entries(s).items()) for s in got)
    equal(got_s, exp_s, 'singular sequences of %s' % x)
    equal(x.cardinal, len(exp), 'cardinal')
    equal(x.is_singular, len(exp) == 1, 'is_singular')
    for s in got:
        check(type(s) is Word, 'type of a singular sequence')
        equal([str(r) for r in s.role.constant], w['focus'], 'role singled out in the singular sequence %s' % s)
        equal(s.context_type, x.context_type, 'kind of function of a singular sequence')
        equal(s.is_singular, True, 'a singular sequence %s is singular' % s)
        equal(s in x, True, '%s in %s' % (s, x))
        equal(str(PARSER.parse(str(s))), str(s), 'singular sequence read back')
    return len(exp) > 1


@case('P12')
def junction_focus(w, depth):
    """a role which is a junction stands for all the lexemes it joins"""
    js = [a[:i] for a, _ in w['roles'] for i, s in enumerate(a) if s in LINKS]
    if not js:
        return False
    focus = js[depth % len(js)]
    x = b_word({'roles': w['roles'], 'focus': focus})
    marked = {' '.join(p.split()[1:]) for p in str(x)[1:-1].split(' > ') if p.startswith('!')}
    # below a junction, only what is reached through links and indices
    exp = set()
    for a, l in w['roles']:
        if a[:len(focus)] == focus:
            rest = a[len(focus):]
            if len(rest) % 2 == 0 and all(rest[i] in LINKS and rest[i + 1] in INDEX for i in range(0, len(rest), 2)):
                exp.add(' '.join((' '.join(a) + ' ' + R.lexeme_text(l)).split()))
    equal(marked, exp, 'roles singled out in %s by %s' % (x, focus))
    return True


@case('P12')
def word_rejected(roles, why):
    l = [([script(x) for x in a], b_lexeme(le)) for a, le in roles]
    try:
        ctx, f = SyntagmaticFunction.from_list(l)
    except Exception:
        return True
    raise Violation('accepted (%s): %s' % (why, [' '.join(a) for a, _ in roles]))


@case('P12')
def process_rejected(role):
    """a process is not made with another role than those of actants"""
    a = DependantQualitySyntagmaticFunction(actor=PARSER.parse('()(U:)'))
    for actants in ({script(role): a}, {script(ACTANTS[0]): a, script(role): a}):
        try:
            f = ProcessSyntagmaticFunction(PARSER.parse('()(A:)'), script(VALENCES[0]), actants)
        except ValueError:
            continue
        raise Violation('a process with the role %s is accepted: %s' % (role, f.as_list(ProcessSyntagmaticFunction)))
    return True


@case('P12')
def any_assignment(addresses):
    """lexemes at any roles: refused, or each one is at its role"""
    ms = ['U:', 'A:', 'S:', 'B:', 'T:', 'wo.', 'wa.', 'y.', 'o.'][:len(addresses)]
    text = ['()(%s)' % m for m in ms]
    l = [([script(x) for x in a], PARSER.parse(t)) for a, t in zip(addresses, text)]
    t = '[' + ' > '.join(('! ' if i == 0 else '') + ' '.join(a) + ' ' + x for i, (a, x) in enumerate(zip(addresses, text))) + ']'
    try:
        ctx, f = SyntagmaticFunction.from_list(l)
    except ValueError:
        try:
            y = PARSER.parse(t)
        except CannotParse:
            return False
        raise Violation('%s is accepted and read as %s' % (t, y))
    got = sorted((tuple(str(s) for s in a), str(x)) for a, x in f.as_list(ctx))
    equal(got, sorted((tuple(a), x) for a, x in zip(addresses, text)), 'roles of the function of %s' % (addresses,))
    equal(entries(PARSER.parse(t)), dict(got), 'roles of %s' % t)
    return True


def gen_addresses(rng):
    """roles near those of a word"""
    n = rng.randrange(1, 6)
    head = rng.choice([[DEP], [INDEP], None])
    link = rng.sample(LINKS, 2)
    res = []
    for i in range(n):
        if head is None:
            a = [rng.choice(VALENCES)] if i == 0 else [rng.choice(ACTANTS[:2])]
        else:
            a = list(head)
        if head is not None or i or rng.random() < 0.1:
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                k = rng.random()
                if k < 0.25:
                    a.append(DEP)
                elif k < 0.45:
                    a.append(INDEP)
                elif k < 0.93:
                    a += [link[rng.random() < 0.1], INDEX[min(rng.randrange(3), rng.randrange(3))]]
                elif k < 0.95:
                    a.append(rng.choice(LINKS + INDEX + ACTANTS))
        res.append(a)
    if rng.random() < 0.6:                 # complete the places above
        out = []
        for a in res:
            for i in range(1, len(a)):
                if a[i - 1] not in LINKS and a[:i] not in out and not (i < len(a) and a[i] in LINKS) and (head or i > 0):
                    out.append(a[:i])
            if a not in out:
                out.append(a)
        res = out[:9]
    rng.shuffle(res)
    return res


@case('P12')
def role_rejected(r):
    check(raises(lambda: SyntagmaticRole([script(x) for x in r]), ValueError), 'the role %s is accepted', r)


@case('P12')
def word_checked(w):
    x = b_word(w)
    pref = 0 if kind_of(w) == 'process' else 1
    if any(a[pref:].count(INDEP) > 1 for a, _ in w['roles']) or w['focus'].count(INDEP) > 1 or \
            (kind_of(w) == 'indep' and any(INDEP in a[1:] for a, _ in w['roles'])):
        return False
    if kind_of(w) != 'process' and any(len(a) > 1 and a[1] in LINKS for a, _ in w['roles']):
        return False   # no lexeme at the top
    if any(bad_lexeme(l) for _, l in w['roles']):
        return False
    try:
        check_word(x)
        x.check()
    except ValueError as e:
        raise Violation('the word %s is refused: %s' % (x, e))
    return True


def bad_lexeme(l):
    for p in l:
        c, g = R.pm(p)
        ms = [m.text for m in c] + [m.text for q, _ in g for m in q]
        if len(set(ms)) != len(ms) or any(not 1 <= n <= min(3, len(m)) for m, n in g):
            return True
    return False


def spoil(rng, w):
    """-> (roles, why) not accepted, or None"""
    roles = [[list(a), l] for a, l in w['roles']]
    k = kind_of(w)
    x = rng.choice(['two_valence', 'valence_long', 'unknown', 'mixed', 'actant_twice', 'twice', 'none', 'no_process', 'actant_in_quality', 'beside', 'beside'])
    le = gen_lexeme(rng, plural=False)
    if x == 'two_valence' and k == 'process':
        return roles + [[[rng.choice(VALENCES)], le]], 'two process roles'
    if x == 'valence_long' and k == 'process':
        return [[a + [DEP] if a[0] in VALENCES else a, l] for a, l in roles], 'a process role with a quality'
    if x == 'unknown':
        return roles + [[['wa.'], le]], 'unknown role'
    if x == 'mixed' and k != 'process':
        o = {DEP: INDEP, INDEP: DEP}[roles[0][0][0]]
        return roles + [[[o], le]], 'two kinds of function'
    if x == 'actant_twice' and k == 'process':
        a = rng.choice(ACTANTS)
        return roles + [[[a, rng.choice(ACTANTS)], le]], 'an actant in an actant'
    if x == 'twice':
        c = [a for a, _ in roles if a[0] == DEP or a[0] in ACTANTS]
        c = [a for a in c if INDEP not in a]
        if c:
            a = rng.choice(c)
            # the same one twice is not accepted either
            return roles + [[a, [l for b, l in roles if b == a][0] if rng.random() < 0.4 else le]], 'two lexemes for one role'
    if x == 'beside':
        # a role which has an index, beside those of a junction
        js = [a[:i] for a, _ in roles for i, s in enumerate(a) if s in LINKS]
        if js:
            j = rng.choice(js)
            o = rng.choice([DEP, INDEP] + LINKS)
            if [o] not in [a[len(j):len(j) + 1] for a, _ in roles if a[:len(j)] == j]:
                roles.insert(rng.randrange(len(roles) + 1), [j + [o, rng.choice(INDEX[:4])], le])
                return roles, 'a role beside a junction'
    if x == 'none':
        return [], 'nothing'
    if x == 'no_process' and k == 'process':
        r = [[a, l] for a, l in roles if a[0] not in VALENCES]
        if r:
            return r, 'actants without process'
    if x == 'actant_in_quality' and k == 'dep':
        return roles + [[[DEP, rng.choice(ACTANTS)], le]], 'an actant in a quality'
    return None


@generator('P12')
def g12(rng, tier):
    n = 260 if tier == 'quick' else 6000
    for i in range(n):
        w = gen_word(rng, plural=False)
        yield word_list, (w, rng.randrange(1000))
        yield word_checked, (w,)
        yield lexeme_singular_sequences, (gen_lexeme(rng),)
        w = gen_word(rng)
        yield word_list, (w, rng.randrange(1000))
        yield word_singular_sequences, (w,)
        yield junction_focus, (w, rng.randrange(5))
        s = spoil(rng, w)
        if s:
            yield word_rejected, s
        for _ in range(2):
            yield any_assignment, (gen_addresses(rng),)
        roles = [a for a, _ in w['roles']]
        if len(roles) < 8:
            roles.insert(rng.randrange(len(roles) + 1), rng.choice(gen_addresses(rng)))
            yield any_assignment, (roles,)
        if i % 5 == 0:
            m = morpheme(rng)
            if m not in VALENCES + ACTANTS + [DEP, INDEP] + LINKS + INDEX:
                yield role_rejected, ([rng.choice(VALENCES + ACTANTS), m][::rng.choice([1, -1])],)
                yield process_rejected, (m,)
            yield process_rejected, (rng.choice(VALENCES + [DEP, INDEP] + LINKS + INDEX),)


# ---------------------------------------------------------------- P13
# a path as JSON: [] or [['role', [roles], focus], ['lexeme', 'content'], ['pm', 'group_1', mult, morpheme or None]], ['flex', morpheme]

def b_path(p):
    child = None
    for e in reversed(p):
        if e[0] == 'role':
            child = RolePath(b_role(e[1]), has_focus=bool(e[2]), child=child)
        elif e[0] == 'lexeme':
            child = LexemePath(LexemeIndex[e[1].upper()], child=child)
        elif e[0] == 'flex':
            child = FlexionPath(script(e[1]), child=child)
        else:
            child = PolymorphemePath(GroupIndex[e[1].upper()], morpheme=None if e[3] is None else script(e[3]),
                                     multiplicity=e[2], child=child)
    return UslPath() if child is None else child


def path_text(p):
    if not p:
        return '>'
    r = ''
    for e in p:
        if e[0] == 'role':
            r += '>role>' + ('! ' if e[2] else '') + ' '.join(e[1])
        elif e[0] == 'lexeme':
            r += '>' + e[1]
        elif e[0] == 'flex':
            r += '>' + e[1]
        else:
            r += '>' + e[1] + (' %d' % e[2] if e[2] is not None else '') + ('>' + e[3] if e[3] is not None else '')
    return r


def as_json(p):
    """the structure of a path object"""
    res = []
    while p is not None:
        if type(p) is RolePath:
            res.append(['role', [str(s) for s in p.role.constant], bool(p.has_focus)])
        elif type(p) is LexemePath:
            res.append(['lexeme', p.index.name.lower()])
        elif type(p) is FlexionPath:
            res.append(['flex', str(p.morpheme)])
        elif type(p) is PolymorphemePath:
            res.append(['pm', p.group_idx.name.lower(), p.multiplicity, None if p.morpheme is None else str(p.morpheme)])
        elif type(p) is not UslPath:
            raise Violation('unknown kind of path %s' % type(p))
        p = p.child
    return res


def gen_path(rng, start=None):
    start = start or rng.choice(['role', 'role', 'lexeme', 'pm', 'flex', 'top'])
    p = []
    if start == 'top':
        return p
    if start == 'role':
        w = gen_word(rng, plural=False)
        p.append(['role', rng.choice(w['roles'])[0], rng.random() < 0.4])
        if rng.random() < 0.2:
            return p
        start = 'lexeme'
    if start == 'lexeme':
        p.append(['lexeme', rng.choice(['content', 'flexion'])])
        if rng.random() < 0.2:
            return p
        start = 'pm' if p[-1][1] == 'content' else 'flex'
    if start == 'flex':
        p.append(['flex', rng.choice(FLEX_ALL) if rng.random() < 0.5 else morpheme(rng)])
    else:
        g = rng.choice(['constant', 'group_0', 'group_1', 'group_2'])
        p.append(['pm', g, None if g == 'constant' else rng.randint(1, 3), morpheme(rng) if rng.random() < 0.8 else None])
    return p


@case('P13')
def path_round_trip(p):
    x = b_path(p)
    equal(str(x), path_text(p), 'text of the path')
    y = PATHS.parse(str(x))
    equal(as_json(y), p, 'path read from %r' % str(x))
    equal(str(y), str(x), 'text of the path read')
    equal(x == y and hash(x) == hash(y), True, 'the path read is equal, with the same hash')
    equal(as_json(x.clone()), p, 'clone of %s' % x)
    equal(as_json(x.tail), p[-1:], 'tail of %s' % x)
    equal(as_json(x.no_child_clone()), p[:1], 'first step of %s' % x)
    return bool(p)


@case('P13')
def path_pair(p, q):
    x, y = b_path(p), b_path(q)
    equal(x == y, p == q, '%s == %s' % (x, y))
    if p == q:
        equal(hash(x), hash(y), 'hash')
    return p != q


@case('P13')
def path_cuts(p):
    x = b_path(p)
    for i in range(1, len(p)):
        pre, suf = b_path(p[:i]), b_path(p[i:])
        what = '%s cut in %s and %s' % (x, pre, suf)
        equal(as_json(pre.concat(suf)), p, 'concatenation, ' + what)
        equal(as_json(pre.concat(suf, force=True)), p, 'forced concatenation, ' + what)
        equal(x.has_prefix(pre), True, 'prefix, ' + what)
        r = x.remove_prefix(pre)
        check(r is not None, 'removing the prefix gives nothing, %s', what)
        equal(as_json(r), p[i:], 'prefix removed, ' + what)
        equal(bool(pre.has_prefix(x)), False, 'a longer path is a prefix, ' + what)
        equal(pre.remove_prefix(x), None, 'removing a longer path, ' + what)
        equal(as_json(pre), p[:i], 'prefix after the operations, ' + what)
        equal(as_json(suf), p[i:], 'suffix after the operations, ' + what)
    equal(as_json(x), p, 'the path after the operations')
    equal(x.has_prefix(x), True, '%s is a prefix of itself' % x)
    equal(as_json(UslPath().concat(x)), p, 'concatenation to the top')
    equal(as_json(x.concat(UslPath())), p, 'concatenation of the top')
    h, t = x.split_tail()
    equal((as_json(h), as_json(t)), (p[:-1], p[-1:]), 'split of the tail of %s' % x)
    return len(p) > 1


@case('P13')
def path_not_prefix(p, q):
    """q differs from p at a step they both have: not a prefix"""
    n = min(len(p), len(q))
    if not n or all(p[i] == q[i] for i in range(n)):
        return False
    i = [i for i in range(n) if p[i] != q[i]][0]
    if q[i][0] == p[i][0] == 'pm' and p[i][1:3] == q[i][1:3]:
        return False
    x, y = b_path(p), b_path(q)
    equal(bool(x.has_prefix(y)), False, '%s has the prefix %s' % (x, y))
    equal(x.remove_prefix(y), None, '%s without the prefix %s' % (x, y))
    return True


def describe(x):
    return [type(x).__name__ if not isinstance(x, Script) else 'Script', str(x)]


def ref_paths(u):
    """the components of the USL: [(path json, [type, text])]"""
    kind, r = u
    res = []
    if kind == 'pm':
        c, g = R.pm(r)
        cc = [m.text for m in c]
        res.append(([['pm', 'constant', None, None]], ['PolyMorpheme', ' '.join(cc)]))
        res += [([['pm', 'constant', None, m]], ['Script', m]) for m in cc or ['E:']]
        for i, (ms, n) in enumerate(g):
            res.append(([['pm', 'group_%d' % i, n, None]], ['PolyMorpheme', 'm%d(%s)' % (n, ' '.join(m.text for m in ms))]))
            res += [([['pm', 'group_%d' % i, n, m.text]], ['Script', m.text]) for m in ms]
    elif kind == 'lexeme':
        f, c = r
        res.append(([['lexeme', 'flexion']], ['PolyMorpheme', R.pm_text(f)]))
        res += [([['lexeme', 'flexion'], ['flex', m.text]], ['Script', m.text]) for m in ms_of(f)]
        res.append(([['lexeme', 'content']], ['PolyMorpheme', R.pm_text(c)]))
        res += [([['lexeme', 'content']] + p, d) for p, d in ref_paths(['pm', c])]
    else:
        res.append(([], ['Word', None]))
        for a, l in r['roles']:
            s = ['role', a, a == r['focus']]
            res.append(([s], ['Lexeme', R.lexeme_text(l)]))
            res += [([s] + p, d) for p, d in ref_paths(['lexeme', l])]
    return res


def match(d, e, x):
    return d[0] == e[0] and (d[1] == e[1] or e[1] is None and d[1] == str(x))


def no_dup(p):
    c, g = R.pm(p)
    ms = [m.text for m in c] + [m.text for q, _ in g for m in q]
    return len(set(ms)) == len(ms)


@case('P13')
def deference_all(u):
    x = build(u)
    ref = ref_paths(u)
    got = list(x.iter_structure_path())
    equal(sorted(map(repr, (as_json(p) for p, _ in got))), sorted(repr(p) for p, _ in ref), 'paths enumerated for %s' % x)
    byp = {repr(p): d for p, d in ref}
    for p, item in got:
        e = byp[repr(as_json(p))]
        check(match(describe(item), e, x), 'component at %s of %s: %s, expected %s', str(p), str(x), describe(item), e)
    for p, e in ref:
        q = b_path(p)
        for z in (q, PATHS.parse(str(q))):
            check(match(describe(z.deference(x)), e, x), 'dereferencing %s of %s: %s, expected %s', str(z), str(x), describe(z.deference(x)), e)
        equal(q.contained(x), True, '%s leads to something in %s' % (q, x))
        for i in range(1, len(p)):
            a = b_path(p[:i]).deference(x)
            check(match(describe(b_path(p[i:]).deference(a)), e, x), 'dereferencing %s of %s in turn', str(q), str(x))
    return True


@case('P13')
def deference_nowhere(u, p):
    ref = [a for a, _ in ref_paths(u)]
    proc = VALENCES + ACTANTS
    # the kind of function a quality role starts with and the valence of the process are not compared
    strip = lambda a: ['V'] + a[1:] if a[0] in VALENCES else a if a[0] in proc else a[1:]
    norm = lambda path: [['role', strip(e[1])] if e[0] == 'role' else ['pm', e[1], e[3]] if e[0] == 'pm' else e for e in path]
    if norm(p) in [norm(a) for a in ref] or not p:
        return False
    if p[0][0] == 'role' and u[0] == 'word':
        # a junction, which has no lexeme of its own
        r = strip(p[0][1])
        if any(strip(a)[:len(r)] == r and len(strip(a)) > len(r) and strip(a)[len(r)] in LINKS for a, _ in u[1]['roles']):
            return False
    if any(e[0] == 'flex' and e[1].startswith('E') and set(e[1]) <= set("E:.-',_;") for e in p) or \
            any(e[0] == 'pm' and e[3] is not None and R.parse(e[3]).empty for e in p):
        return False
    x = build(u)
    q = b_path(p)
    first = {'pm': ('pm', 'flex'), 'lexeme': ('lexeme',), 'word': ('role',)}[u[0]]
    if u[0] == 'pm' and p[0][0] == 'flex' and p[0][1] in {m.text for m in ms_of(u[1])}:
        return False
    try:
        r = q.deference(x)
    except DeferenceError:
        equal(q.contained(x), False, '%s leads nowhere in %s' % (q, x))
        return True
    raise Violation('dereferencing %s in %s gives %s' % (q, x, r))


def spoil_path(rng, u):
    ps = [p for p, _ in ref_paths(u) if p]
    p = [list(e) for e in rng.choice(ps)]
    if rng.random() < 0.2:
        return gen_path(rng)
    i = rng.randrange(len(p))
    e = p[i]
    if e[0] == 'role':
        e[1] = gen_path(rng, 'role')[0][1]
    elif e[0] == 'flex':
        e[1] = morpheme(rng)
    elif e[0] == 'pm':
        if rng.random() < 0.5 and e[3] is not None:
            e[3] = morpheme(rng)
        else:
            e[1] = rng.choice(['group_0', 'group_1', 'group_2'])
            e[2] = 1
    else:
        if u[0] == 'lexeme':
            return p[1:] if len(p) > 1 else [['role', [DEP], False]] + p
    return p


@case('P13')
def path_forms(p, m):
    """as_constant and without_morpheme change only what they say"""
    x = b_path(p)
    if p and p[-1][0] == 'pm':
        e = p[-1]
        equal(as_json(x.as_constant(script(m))), p[:-1] + [['pm', 'constant', None, e[3] or m]], '%s as a constant path' % x)
        equal(as_json(x.without_morpheme()), p[:-1] + [['pm', e[1], e[2], None]], '%s without morpheme' % x)
        equal(x.is_constant_path, e[1] == 'constant', '%s is a constant path' % x)
    elif p:
        equal(as_json(x.as_constant()), p, '%s as a constant path' % x)
        if len(p) > 1 and p[-1][0] == 'flex':
            equal(as_json(x.without_morpheme()), p[:-1], '%s without morpheme' % x)
    return True


@generator('P13')
def g13(rng, tier):
    n = 260 if tier == 'quick' else 6000
    for i in range(n):
        p = gen_path(rng)
        yield path_round_trip, (p,)
        yield path_cuts, (p,)
        yield path_forms, (p, morpheme(rng))
        q = [list(e) for e in p]
        if q and rng.random() < 0.8:
            k = rng.randrange(len(q))
            if q[k][0] == 'role':
                q[k] = rng.choice([['role', q[k][1], not q[k][2]], gen_path(rng, 'role')[0]])
            elif q[k][0] == 'flex':
                q[k] = ['flex', morpheme(rng)]
            elif q[k][0] == 'pm':
                q[k] = gen_path(rng, 'pm')[0]
            else:
                q = q[:k]
        else:
            q = gen_path(rng)
        yield path_pair, (p, q)
        yield path_not_prefix, (p, q)
        yield path_not_prefix, (gen_path(rng, 'role'), gen_path(rng, 'role'))
        u = gen_usl(rng)
        yield deference_all, (u,)
        yield deference_nowhere, (u, spoil_path(rng, u))


# ---------------------------------------------------------------- P14

def ref_leaves(u):
    return sorted([path_text(p), d[1]] for p, d in ref_paths(u) if d[0] == 'Script')


def composable(u):
    """every inflection can be rebuilt from its morphemes"""
    return True


@case('P14')
def decompose_compose(u, seed):
    x = build(u)
    pairs = list(x.iter_structure_path_by_script_ss())
    equal(sorted([str(p), str(m)] for p, m in pairs), ref_leaves(u), 'morphemes enumerated for %s' % x)
    for p, m in pairs:
        check(isinstance(m, Script), '%s at %s is not a morpheme', str(m), str(p))
        equal(str(p.deference(x)), str(m), 'dereferencing %s' % p)
    random.Random(seed).shuffle(pairs)
    y = usl(pairs)
    equal([type(y).__name__, str(y)], [type(x).__name__, str(x)], 'usl composed from its (path, morpheme) pairs')
    equal(x == y and hash(x) == hash(y), True, 'composed equal to the original')
    if u[0] == 'word':
        same_word(y, u[1], 'composed word')
    elif u[0] == 'lexeme':
        same_lexeme(y, u[1], 'composed lexeme')
    else:
        same_pm(y, u[1], 'composed polymorpheme')
    return len(pairs) > 1


@case('P14')
def incoherent(u, kind):
    """pairs which are not those of one usl are refused"""
    x = build(u)
    pairs = list(x.iter_structure_path_by_script_ss())
    if kind == 'focus' and u[0] == 'word':
        pairs = [(b_path([e if e[0] != 'role' else ['role', e[1], False] for e in as_json(p)]), m) for p, m in pairs]
    elif kind == 'level' and u[0] != 'pm':
        pairs.append((PolymorphemePath(GroupIndex.CONSTANT, morpheme=script('U:')), script('U:')))
    elif kind == 'type':
        pairs = [(str(p), m) for p, m in pairs]
    elif kind == 'mult' and u[0] == 'pm' and u[1]['g']:
        g = [p for p, m in pairs if p.group_idx == GroupIndex.GROUP_0][0]
        pairs.append((PolymorphemePath(GroupIndex.GROUP_0, morpheme=script("wa.-'"), multiplicity=g.multiplicity % 3 + 1), script("wa.-'")))
    else:
        return False
    try:
        y = usl(pairs)
    except Exception:
        return True
    raise Violation('%s pairs of %s give %s' % (kind, x, y))


@generator('P14')
def g14(rng, tier):
    n = 60 if tier == 'quick' else 1500
    for i in range(n):
        for k in ('pm', 'lexeme', 'word', 'word'):
            r = gen_pm(rng, empties=0) if k == 'pm' else gen_lexeme(rng) if k == 'lexeme' else gen_word(rng)
            yield decompose_compose, ([k, r], rng.randrange(1000))
        u = gen_usl(rng)
        yield incoherent, (u, rng.choice(['focus', 'level', 'type', 'mult']))


# ---------------------------------------------------------------- P15

LITERALS = ['', 'x', 'a "quoted" word', '"', '""', 'é ü 中文', "it's", '[>role>E:S:. "x"]', '! > ( ) [ ]', '  spaces  ', 'a\tb', 'a\nb',
            '#hash#', 'm1(U:)', '{}', 'U: A:', '12', '" "', ']', '>', "U:.A:.-'"]


def literal(rng):
    if rng.random() < 0.6:
        return rng.choice(LITERALS)
    return ''.join(rng.choice('ab "[]()>!\'#{}é:.-,_;m1') for _ in range(rng.randint(0, 10)))


def decorable(u):
    """paths of the components which can carry a literal: not the groups of a polymorpheme as a whole"""
    ps = [p for p, d in ref_paths(u) if p and not (p[-1][0] == 'pm' and p[-1][3] is None)]
    return [p for p in ps if not (p[-1][0] == 'pm' and p[-1][3] == 'E:') and not (p[-1][0] == 'flex' and p[-1][1] == 'E:')]


def all_once(u):
    l = [m for _, m in ref_leaves(u)]
    l = [m for m in l if m != 'E:']
    return len(set(l)) == len(l)


@case('P15')
def decorate(u, decs):
    """decs: [[path, literal]], distinct paths"""
    if not all_once(u) or not decs:
        return False
    x = build(u)
    before = str(x)
    ref = dict((path_text(p), v) for p, v in decs)
    d = InstancedUSL(x, [Decoration(b_path(p), v) for p, v in decs])
    got = {str(e.path): e.value for e in d.decorations}
    equal(got, ref, 'literals of %s by path' % before)
    equal(len(d.decorations), len(ref), 'number of literals')
    equal(str(d.usl), before, 'text of the usl underneath')
    t = str(d)
    check(t.startswith(before), 'the text %r does not start with the text of the usl %r', t, before)
    y = PARSER.parse(t)
    check(type(y) is InstancedUSL, '%r is read as a %s', t, type(y).__name__)
    equal([type(y.usl).__name__, str(y.usl)], [type(x).__name__, before], 'usl underneath, read from %r' % t)
    equal({str(e.path): e.value for e in y.decorations}, ref, 'literals read from %r' % t)
    equal(str(y), t, 'text of the decorated usl read')
    for p, v in decs:
        equal(str(b_path(p).deference(y)), str(b_path(p).deference(x)), 'dereferencing %s in the decorated usl' % path_text(p))
    # nothing is left on the shared components
    z = InstancedUSL.from_usl(PARSER.parse(before) if u[0] != 'pm' else build(u))
    equal([str(e) for e in z.decorations], [], 'literals found afterwards in the undecorated usl')
    equal(str(x), before, 'text of the usl afterwards')
    equal([str(m) for m in y.morphemes], [str(m) for m in x.morphemes], 'morphemes of the decorated usl')
    return True


@case('P15')
def decorated_ss(u, decs):
    """a literal goes with the singular sequences which have its path"""
    if not all_once(u) or not decs:
        return False
    x = build(u)
    if x.cardinal > 60:
        return False
    d = InstancedUSL(x, [Decoration(b_path(p), v) for p, v in decs])
    ss = d.singular_sequences
    equal(len(ss), x.cardinal, 'number of singular sequences')
    for s, t in zip(ss, x.singular_sequences):
        exp = {path_text(p): v for p, v in decs if b_path(p).contained(t)}
        if exp:
            check(isinstance(s, InstancedUSL), 'singular sequence %s has lost its literals', str(s))
            equal(str(s.usl), str(t), 'singular sequence')
            equal({str(e.path): e.value for e in s.decorations}, exp, 'literals of the singular sequence %s' % t)
        else:
            equal(str(s), str(t), 'singular sequence without literal')
    return True


@case('P15')
def flexion_literal(p, decs):
    """a polymorpheme decorated by inflection paths"""
    x = b_pm(p)
    if not no_dup(p) or not decs:
        return False
    ref = {'>' + m: v for m, v in decs}
    d = InstancedUSL(x, [Decoration(FlexionPath(script(m)), v) for m, v in decs])
    equal({str(e.path): e.value for e in d.decorations}, ref, 'literals of %s by path' % x)
    y = PARSER.parse(str(d))
    check(type(y) is InstancedUSL, '%r is read as a %s', str(d), type(y).__name__)
    equal({str(e.path): e.value for e in y.decorations}, ref, 'literals read from %r' % str(d))
    equal(str(y), str(d), 'text')
    return True


@case('P15')
def refused_decoration(u, decs, m, d2):
    """a refused decoration (path to a morpheme the usl does not have) leaves no literal behind"""
    if not all_once(u) or not decs or m in [x for _, x in ref_leaves(u)]:
        return False
    x = build(u)
    bad = {'pm': [['pm', 'CONSTANT', 1, m]], 'lexeme': [['lexeme', 'CONTENT'], ['pm', 'CONSTANT', 1, m]]}.get(u[0])
    if bad is None:
        bad = [p for p in decorable(u) if p[-1][0] == 'role'][:1]
        if not bad:
            return False
        bad = list(bad[0]) + [['lexeme', 'CONTENT'], ['pm', 'CONSTANT', 1, m]]
    try:
        InstancedUSL(x, [Decoration(b_path(p), v) for p, v in decs] + [Decoration(b_path(bad), 'bad')])
    except Exception:
        pass
    else:
        return False
    got = InstancedUSL(x, [Decoration(b_path(p), v) for p, v in d2]).decorations
    equal({str(e.path): e.value for e in got}, {path_text(p): v for p, v in d2},
          'literals of %s after a refused decoration' % x)
    return True


@generator('P15')
def g15_refused(rng, tier):
    for i in range(25 if tier == 'quick' else 600):
        for k in ('pm', 'lexeme', 'word'):
            used = set()
            r = gen_pm(rng, empties=0, used=used) if k == 'pm' else gen_lexeme(rng, used) if k == 'lexeme' else gen_word(rng, used)
            u = [k, r]
            ps = decorable(u) if all_once(u) else []
            if len(ps) < 2:
                continue
            p, q = rng.sample(ps, 2)
            yield refused_decoration, (u, [[p, literal(rng)]], morpheme(rng), [[q, literal(rng)]])


@generator('P15')
def g15(rng, tier):
    n = 130 if tier == 'quick' else 4000
    for i in range(n):
        for k in ('pm', 'lexeme', 'word', 'word'):
            used = set()
            for _ in range(6):
                r = gen_pm(rng, empties=0, used=used) if k == 'pm' else gen_lexeme(rng, used) if k == 'lexeme' else gen_word(rng, used)
                if k == 'pm' and len(r['c']) == 1 and not r['g']:
                    continue
                if all_once([k, r]):
                    break
            u = [k, r]
            if k == 'pm' and len(r['c']) <= 1 and not r['g']:
                continue
            ps = decorable(u)
            if not ps:
                continue
            ds = [[p, literal(rng)] for p in rng.sample(ps, min(len(ps), rng.choice([1, 1, 2, 3])))]
            yield decorate, (u, ds)
            if k == 'pm':
                yield decorated_ss, (u, ds)
        p = gen_pm(rng, empties=0)
        ms = [m.text for m in ms_of(p) if not m.empty]
        if len(ms) > 1:
            yield flexion_literal, (p, [[m, literal(rng)] for m in rng.sample(ms, rng.randint(1, 2))])
