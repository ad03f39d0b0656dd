"""Generators (seeded) of recipes and USLs, as JSON values."""
from . import ref as R

PRIMS = 'UASBT'
PRIMS_E = 'EUASBT'
CHARS0 = ['E', 'U', 'A', 'S', 'B', 'T', 'O', 'M', 'F', 'I']
CHARS1 = sorted(R.PRODUCTS)


def script0(rng, plural=0.4, empty=0.12):
    x = rng.random()
    if x < empty:
        return 'E'
    if x < empty + plural:
        k = rng.random()
        if k < 0.5:
            return rng.choice('OMFI')
        chars = rng.sample(PRIMS_E, rng.randint(2, 4))
        return ['a'] + chars
    return rng.choice(PRIMS)


def recipe(rng, layer, plural=0.35, empty=0.15, sums=0.25, single=0.0):
    """a random recipe of the layer; not bounded in cardinal"""
    if layer == 0:
        r = script0(rng, plural, empty)
        return ['a', r] if rng.random() < single else r
    x = rng.random()
    if x < empty:
        return ['n', layer]
    if x < empty + sums:
        n = rng.randint(2, 3)
        return ['a'] + [recipe(rng, layer, plural, empty / 2, sums if rng.random() < single else 0, single)
                        for _ in range(n)]
    if layer == 1 and rng.random() < 0.3:
        r = rng.choice(CHARS1)
    else:
        n = rng.choice([1, 2, 2, 3, 3])
        p = plural if rng.random() < 0.7 else plural / 4
        r = ['m'] + [recipe(rng, layer - 1, p * 0.7, 0.25 if i else 0.1, sums * 0.6, single) for i in range(n)]
    return ['a', r] if rng.random() < single else r


def bounded_recipe(rng, layer, maxcard=R.MAX, mincard=1, tries=400, **kw):
    for i in range(tries):
        damp = 1.0 / (1 + layer * 0.6) if mincard < 20 else 0.8
        k = dict(plural=0.4 * damp, sums=0.3 * damp)
        k.update(kw)
        r = recipe(rng, layer, **k)
        try:
            x = R.ref(r)
        except R.Rejected:
            continue
        if mincard <= x.card <= maxcard:
            return r
    # fall back on something small
    r = rng.choice(PRIMS)
    for _ in range(layer):
        r = ['m', r]
    return r


def singular(rng, layer):
    return bounded_recipe(rng, layer, maxcard=1, plural=0.0, sums=0.0, empty=0.15)


def pretty(r):
    return R.text_of(r)


def shuffle_recipe(rng, r):
    """the same script, written otherwise: sums permuted, repeated and nested, empty parts made explicit or omitted"""
    if isinstance(r, str):
        if r in R.SUMS and rng.random() < 0.5:
            l = list(R.SUMS[r])
            rng.shuffle(l)
            return ['a'] + l
        if r in R.PRODUCTS and rng.random() < 0.5:
            return ['m'] + list(R.PRODUCTS[r]) + (['E'] if rng.random() < 0.5 else [])
        return r
    if r[0] == 'n':
        if r[1] > 0 and rng.random() < 0.3:
            return ['m'] + [['n', r[1] - 1]] * rng.randint(1, 3)
        return r
    c = [shuffle_recipe(rng, x) for x in r[1:]]
    if r[0] == 'm':
        if len(c) < 3 and rng.random() < 0.4:
            c = c + [['n', R.layer_of(r) - 1]] * rng.randint(1, 3 - len(c))
        return ['m'] + c
    rng.shuffle(c)
    if rng.random() < 0.4:
        c.append(rng.choice(c))
    return ['a'] + c


def nest_sum(rng, terms):
    """a sum of the terms, randomly parenthesised (for construction through the API)"""
    terms = list(terms)
    while len(terms) > 3 and rng.random() < 0.7:
        k = rng.randint(1, 2)
        i = rng.randint(0, len(terms) - k)
        terms[i:i + k] = [['a'] + terms[i:i + k]]
    return ['a'] + terms
