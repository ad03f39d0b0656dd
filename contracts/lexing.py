"""Contracts of PLY lexers: the rules, as the lexer holds them (in the order in which they are tried), are translated to regular
languages of z3; for every text of a token and everything which can follow, no rule tried before matches at its start, and the
rule of the token matches all of it."""
try:
    import re._parser as sre
    import re._constants as K
except ImportError:
    import sre_parse as sre
    import sre_constants as K

from .common import *

S = z3.StringSort()
SIGMA = z3.Full(z3.ReSort(S))
EPS = z3.Re('')
ANYC = z3.AllChar(z3.ReSort(S))


def chars(s):
    r = [z3.Re(c) for c in s]
    return z3.Union(*r) if len(r) > 1 else r[0]


def seq(*l):
    return z3.Concat(*l) if len(l) > 1 else l[0] if l else EPS


def one_char(items):
    """character class"""
    neg, r = False, []
    for op, a in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            r.append(z3.Re(chr(a)))
        elif op is K.RANGE:
            r.append(z3.Range(chr(a[0]), chr(a[1])))
        elif op is K.CATEGORY and a is K.CATEGORY_DIGIT:
            r.append(z3.Range('0', '9'))
        elif op is K.CATEGORY and a is K.CATEGORY_SPACE:
            r.append(chars(' \t\n\r\f\v'))
        else:
            raise Unsupported('class %s %s' % (op, a))
    z = z3.Union(*r) if len(r) > 1 else r[0]
    return z3.Intersect(z3.Complement(z), ANYC) if neg else z


def matches(l, k):
    """language of the texts which start by a match of the items, followed by what k accepts"""
    if not l:
        return k
    op, a = l[0]
    rest = lambda: matches(l[1:], k)
    if op is K.LITERAL:
        return seq(z3.Re(chr(a)), rest())
    if op is K.NOT_LITERAL:
        return seq(z3.Intersect(z3.Complement(z3.Re(chr(a))), ANYC), rest())
    if op is K.ANY:
        return seq(z3.Intersect(z3.Complement(z3.Re('\n')), ANYC), rest())
    if op is K.IN:
        return seq(one_char(a), rest())
    if op is K.SUBPATTERN:
        return matches(list(a[3]) + list(l[1:]), k)
    if op is K.BRANCH:
        return z3.Union(*[matches(list(b) + list(l[1:]), k) for b in a[1]])
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, body = a
        x = language(body)
        if hi is K.MAXREPEAT:
            r = z3.Star(x)
            for _ in range(lo):
                r = seq(x, r)
        else:
            r = z3.Loop(x, lo, hi)
        return seq(r, rest())
    if op is K.ASSERT_NOT and a[0] == 1:
        return z3.Intersect(z3.Complement(matches(list(a[1]), SIGMA)), rest())
    if op is K.ASSERT and a[0] == 1:
        return z3.Intersect(matches(list(a[1]), SIGMA), rest())
    raise Unsupported('regular expression: %s' % op)


def language(body):
    return matches(list(body), EPS)


def rules(lx):
    """[(type, items)] in the order in which the lexer tries them"""
    r = []
    for rx, funcs in lx.lexstatere['INITIAL']:
        p = sre.parse(rx.pattern, rx.flags)
        alts = p[0][1][1] if len(p) == 1 and p[0][0] is K.BRANCH else [p]
        groups = {i: n for n, i in p.state.groupdict.items()}
        # python factors a prefix which the alternatives have in common: not here, they are all groups
        for a in alts:
            need(len(a) == 1 and a[0][0] is K.SUBPATTERN, 'master expression of the lexer')
            i, _, _, body = a[0][1]
            need(i in groups, 'unnamed rule')
            f = funcs[i] if i < len(funcs) else None
            r.append((f[1] if f and f[1] else groups[i][2:], list(body)))
    return r


def behind(body):
    return bool(body) and body[0][0] in (K.ASSERT, K.ASSERT_NOT) and body[0][1][0] == -1


def reads(v, lx, case, name, token, lang, follow, end=True, after=None, but=None):
    """every text of lang is read as this token, whatever it is followed by (follow: the characters which can follow it, None
    for any; end: it may be the last), unless it is in but; after: the characters which can come before (for rules which look
    behind); case: bounded case which replays a counterexample"""
    rs = rules(lx)
    if token not in [t for t, _ in rs]:
        v.undecided(name, 'no rule for %s' % token)
        return
    t, r = z3.String('t'), z3.String('r')
    more = seq(chars(follow) if follow else ANYC, SIGMA)
    pre = z3.And([z3.InRe(t, lang), z3.InRe(r, z3.Union(EPS, more) if end else more)] +
                 ([z3.Not(z3.InRe(t, but))] if but is not None else []))
    obs = []
    for kind, body in rs:
        if behind(body):
            need(body[0][0] is K.ASSERT, 'negative look behind')
            seen = [chr(a) for op, a in body[0][1][1] if op is K.LITERAL]
            body = body[1:]
            if kind != token and after is not None and seen and not set(seen) & set(after):
                continue
        if kind == token:
            break
        obs.append(('%s: %s does not come first' % (name, kind), z3.Implies(pre, z3.Not(z3.InRe(t + r, matches(body, SIGMA))))))
    whole = language([x for x in body if x[0] not in (K.ASSERT, K.ASSERT_NOT)])
    obs.append(('%s: its rule matches' % name, z3.Implies(pre, z3.InRe(t + r, matches(body, SIGMA)))))
    obs.append(('%s: all of it' % name, z3.Implies(pre, z3.InRe(t, whole))))
    p = z3.String('p')
    obs.append(('%s: no more' % name, z3.Implies(z3.And(pre, z3.InRe(p, more)), z3.Not(z3.InRe(t + p, whole)))))
    for n, f in obs:
        if not v.ensure(n, f):
            replay(v, lx, case, token, pre, z3.Not(f), t, r, p, (after or ' ')[0])


def replay(v, lx, case, token, pre, neg, t, r, p, before):
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(pre, neg)
    if s.check() != z3.sat:
        return
    m = s.model()
    for rest in (r, p):
        x = m[rest]
        if m[t] is None or x is None and rest is p:
            continue
        text, rest = m[t].as_string(), x.as_string() if x is not None else ''
        if '\\u{' in text + rest:
            continue
        lx.input(before + text + rest)
        toks = []
        for k in lx:
            toks.append((k.type, k.value, k.lexpos))
            if k.lexpos >= len(before):
                break
        if not toks or toks[-1] != (token, text, len(before)):
            v.violations.append(dict(case=case, args=[before, text, rest, token],
                                     message='the text %r in %r is not read as %s: %s' % (text, before + text + rest, token, toks)))
            return


MARKS = ":.-',_;"


def script_texts():
    """the texts of scripts (a larger language): letters, each with marks in the order of layers, and sums"""
    letters = chars("EUASBTOMFIacbedgfihkjmlonpsutwyx")
    marks = seq(*[z3.Option(z3.Re(c)) for c in MARKS])
    some = z3.Intersect(marks, z3.Complement(EPS))
    group = seq(z3.Loop(letters, 1, 2), some)
    return seq(group, z3.Star(seq(z3.Option(z3.Re('+')), group)))
