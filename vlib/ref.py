"""Reference semantics of scripts, written from the statements of the properties (not from the code).

A recipe is a JSON value:  'U' (a primitive), 'E', 'O' 'M' 'F' 'I' (remarkable sums), 'wa' ... (remarkable products),
['n', layer] (empty script), ['m', r0, r1?, r2?] (product), ['a', r, ...] (sum).
`ref(recipe)` is its normal form, an R."""
from functools import lru_cache, cmp_to_key

MARKS = [':', '.', '-', "'", ',', '_', ';']
VALUE = {'E': 1, 'U': 2, 'A': 4, 'S': 8, 'B': 16, 'T': 32}
SUMS = {'O': 'UA', 'M': 'SBT', 'F': 'UASBT', 'I': 'EUASBT'}
PRODUCTS = {}
for _c, _k in {'wo': 'UU', 'wa': 'UA', 'y': 'US', 'o': 'UB', 'e': 'UT',
               'wu': 'AU', 'we': 'AA', 'u': 'AS', 'a': 'AB', 'i': 'AT',
               'j': 'SU', 'g': 'SA', 's': 'SS', 'b': 'SB', 't': 'ST',
               'h': 'BU', 'c': 'BA', 'k': 'BS', 'm': 'BB', 'n': 'BT',
               'p': 'TU', 'x': 'TA', 'd': 'TS', 'f': 'TB', 'l': 'TT'}.items():
    PRODUCTS[_c] = _k
PAIR_TO_CHAR = {v: k for k, v in PRODUCTS.items()}
MAX = 360
AUX, VERB, NOUN = 0, 1, 2


class Rejected(Exception):
    pass


class R:
    __slots__ = ('kind', 'parts', 'layer', 'card', 'empty', 'cls', 'canon', 'text', '_ss')

    def __eq__(self, o):
        return isinstance(o, R) and self.text == o.text

    def __hash__(self):
        return hash(self.text)

    def __repr__(self):
        return self.text

    @property
    def paradigm(self):
        return self.card > 1

    @property
    def ss(self):
        if self._ss is None:
            if self.card == 1:
                self._ss = [self]
            elif self.kind == 'a':
                self._ss = sort([s for p in self.parts for s in p.ss])
            else:
                self._ss = sort([prod([a, b, c]) for a in self.parts[0].ss for b in self.parts[1].ss
                                 for c in self.parts[2].ss])
        return self._ss


def _mk(kind, parts, layer, card, empty, cls, canon, text):
    r = R()
    r.kind, r.parts, r.layer, r.card, r.empty, r.cls, r.canon, r.text, r._ss = \
        kind, parts, layer, card, empty, cls, canon, text, None
    return r


@lru_cache(None)
def null(layer):
    parts = (null(layer - 1),) * 3 if layer else ()
    return _mk('n', parts, layer, 1, True, AUX, bytes([1] * 3 ** layer), 'E' + ''.join(MARKS[:layer + 1]))


@lru_cache(None)
def prim(c):
    if c == 'E':
        return null(0)
    return _mk('p', (), 0, 1, False, VERB if c in 'UA' else NOUN, bytes([VALUE[c]]), c + ':')


def lt(a, b):
    if a.text == b.text:
        return False
    if a.layer != b.layer:
        return a.layer < b.layer
    if (a.kind == 'n') != (b.kind == 'n'):
        return a.kind == 'n'
    if a.card != b.card:
        return a.card < b.card
    if a.canon != b.canon:
        return a.canon < b.canon
    if (a.kind == 'a') != (b.kind == 'a'):
        return b.kind == 'a'
    for x, y in zip(a.parts, b.parts):
        if x.text != y.text:
            return lt(x, y)
    return len(a.parts) < len(b.parts)


_key = cmp_to_key(lambda a, b: 0 if a.text == b.text else (-1 if lt(a, b) else 1))


def sort(l):
    return sorted(l, key=_key)


def prod(parts):
    parts = list(parts)
    if not 1 <= len(parts) <= 3 or len({p.layer for p in parts}) != 1:
        raise Rejected('layers')
    l = parts[0].layer
    while len(parts) < 3:
        parts.append(null(l))
    if all(p.empty for p in parts):
        return null(l + 1)
    card = parts[0].card * parts[1].card * parts[2].card
    if card > MAX:
        raise Rejected('cardinal')
    shown = list(parts)
    while len(shown) > 1 and shown[-1].empty:
        shown.pop()
    text = ''.join(p.text for p in shown)
    if l == 0 and len(shown) == 2 and shown[0].kind == 'p' and shown[1].kind == 'p' \
            and shown[0].text[0] + shown[1].text[0] in PAIR_TO_CHAR:
        text = PAIR_TO_CHAR[shown[0].text[0] + shown[1].text[0]]
    return _mk('m', tuple(parts), l + 1, card, False, parts[0].cls, b''.join(p.canon for p in parts),
               text + MARKS[l + 1])


def flat(parts):
    res = []
    for p in parts:
        if p.kind == 'a':
            res.extend(p.parts)
        else:
            res.append(p)
    return res


def sum_(parts):
    parts = list(parts)
    if not parts or len({p.layer for p in parts}) != 1:
        raise Rejected('layers')
    terms = sort(set(flat(parts)))
    if len(terms) == 1:
        return terms[0]
    card = sum(t.card for t in terms)
    if card > MAX:
        raise Rejected('cardinal')
    text = '+'.join(t.text for t in terms)
    if terms[0].layer == 0:
        chars = {t.text[0] for t in terms}
        for c, s in SUMS.items():
            if chars == set(s):
                text = c + ':'
        canon = bytes([sum(VALUE[c] for c in chars)])
    else:
        canon = b''.join(t.canon for t in terms)
    return _mk('a', tuple(terms), terms[0].layer, card, all(t.empty for t in terms), max(t.cls for t in terms),
               canon, text)


def ref(r):
    if isinstance(r, str):
        if r in VALUE:
            return prim(r)
        if r in SUMS:
            return sum_([prim(c) for c in SUMS[r]])
        return prod([prim(c) for c in PRODUCTS[r]])
    if r[0] == 'n':
        return null(r[1])
    if r[0] == 'm':
        return prod([ref(c) for c in r[1:]])
    return sum_([ref(c) for c in r[1:]])


def layer_of(r):
    if isinstance(r, str):
        return 1 if r in PRODUCTS else 0
    if r[0] == 'n':
        return r[1]
    if r[0] == 'm':
        return layer_of(r[1]) + 1
    return layer_of(r[1])


def text_of(r):
    """a (not normalised) spelling of the recipe"""
    if isinstance(r, str):
        return r + (':' if r in VALUE or r in SUMS else '.')
    if r[0] == 'n':
        return 'E' + ''.join(MARKS[:r[1] + 1])
    if r[0] == 'm':
        return ''.join(text_of(c) for c in r[1:]) + MARKS[layer_of(r)]
    return '+'.join(text_of(c) for c in r[1:])


def has_nested_sum(r):
    """a sum directly in a sum can't be spelled out"""
    return False


def same_members(a, b):
    """b contains a, by definition"""
    return a.layer == b.layer and set(a.ss) <= set(b.ss)


def parse(text):
    """the reference script of a text (canonical or not) of the script language"""
    stack = []   # (R, preceded by '+')
    plus = False
    i = 0
    while i < len(text):
        c = text[i]
        if c == '+':
            plus = True
            i += 1
        elif c in MARKS:
            l = MARKS.index(c)
            j = len(stack)
            while j > 0 and stack[j - 1][0].layer == l - 1:
                j -= 1
            run = stack[j:]
            del stack[j:]
            parts = []
            for x, p in run:
                if p and parts:
                    parts[-1].append(x)
                else:
                    parts.append([x])
            stack.append((prod([sum_(t) for t in parts]), run[0][1]))
            i += 1
        else:
            if text[i:i + 2] in PRODUCTS:
                k = text[i:i + 2]
            else:
                k = c
            i += len(k)
            if k in VALUE or k in SUMS:
                assert text[i] == ':'
                i += 1
                x = prim(k) if k in VALUE else sum_([prim(y) for y in SUMS[k]])
            else:
                assert text[i] == '.'
                i += 1
                x = prod([prim(y) for y in PRODUCTS[k]])
            stack.append((x, plus))
            plus = False
    return sum_([x for x, _ in stack])


# ---------------------------------------------------------------- USLs
# morpheme: text; polymorpheme: {"c": [text...], "g": [[[text...], mult]...]}; lexeme: [flexion, content]
# word: {"roles": [[[role text...], lexeme]...], "focus": [role text...]}

def _cmp_seq(a, b):
    for x, y in zip(a, b):
        if x.text != y.text:
            return -1 if lt(x, y) else 1
    return (len(a) > len(b)) - (len(a) < len(b))


def _cmp_group(a, b):
    return _cmp_seq(a[0], b[0]) or (a[1] > b[1]) - (a[1] < b[1])


def pm(p):
    """-> (constants, groups) sorted; constants is [] when there is none"""
    c = sort([x for x in map(parse, p['c']) if not x.empty])
    g = [(sort([x for x in map(parse, m) if not x.empty]), n) for m, n in p['g']]
    return c, sorted(g, key=cmp_to_key(_cmp_group))


def pm_text(p):
    c, g = pm(p)
    return ' '.join([x.text for x in c] + ['m%d(%s)' % (n, ' '.join(x.text for x in m)) for m, n in g])


def lexeme_text(l):
    f, c = pm_text(l[0]), pm_text(l[1])
    if c:
        return '(%s)(%s)' % (f, c)
    return '(%s)' % f


def pm_ss(p):
    """the set of texts of the singular sequences"""
    import itertools
    c, g = pm(p)
    if not g:
        return {pm_text(p)}
    res = set()
    const = {x.text for x in c}
    for ns in itertools.product(*[range(min(n, len(m)) + 1) for m, n in g]):
        if max(ns) - min(ns) > 1:
            continue
        for ch in itertools.product(*[itertools.combinations(m, k) for (m, _), k in zip(g, ns)]):
            ms = const | {x.text for s in ch for x in s}
            if len(ms) + (0 if c else 1) > 5:
                continue
            res.add(pm_text({'c': sorted(ms), 'g': []}))
    return res
