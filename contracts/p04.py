"""P04: the text of scripts: grammar, rendering, parsing, pickling."""
from .grammar import *
from ieml.constants import LAYER_MARKS, PRIMITIVES, REMARKABLE_ADDITION, MAX_LAYER, remarkable_multiplication_lookup_table
from ieml.exceptions import InvalidScript, CannotParse

PARSER = 'ieml.dictionary.script.parser.parser:ScriptParser.'
LETTERS = sorted(remarkable_multiplication_lookup_table.values())


class Made:
    """a script built by a constructor of a stub"""
    def __init__(self, cls, **kw):
        self.cls, self.kw = cls, kw


def layer_of(sym):
    return int(sym.rsplit('_', 1)[1])


def action(v, production):
    f, left, right = production

    def path(it):
        made = {}

        def new(it, cls, layer, **kw):
            r = it.fresh('made', SCRIPT)
            it.ctx.assume(SCRIPT.tag(r.z) == SCRIPT.classes.index(cls))
            if layer is not None:
                it.ctx.assume(SCRIPT.z('layer', r.z) == layer)
            made[r.z.get_id()] = Made(cls, **kw)
            keep.append(r)
            return r
        keep = []

        def additive(it, a, k):
            x = bind(lambda children=None, character=None: 0, a, k)
            if x['character'] is not None:
                return new(it, AdditiveScript, 0, character=x['character'])
            l = it.to_seq(x['children'])
            return new(it, AdditiveScript, None, terms=VList(l.parts))

        def mult(it, a, k):
            x = bind(lambda substance=None, attribute=None, mode=None, children=None, character=None: 0, a, k)
            if x['character'] is not None:
                return new(it, MultiplicativeScript, None, character=x['character'])
            parts = it.to_seq(x['children']).items() if x['children'] is not None else [x['substance'], x['attribute'],
                                                                                      x['mode']]
            while parts and parts[-1] is None:
                parts = parts[:-1]
            return new(it, MultiplicativeScript, None, parts=parts)
        ctx = it.ctx
        ctx.contracts[SCR + 'AdditiveScript'] = additive
        ctx.contracts[SCR + 'MultiplicativeScript'] = mult
        ctx.contracts[SCR + 'NullScript'] = lambda it, a, k: new(
            it, NullScript, None, null=bind(lambda layer: 0, a, k)['layer'])

        def choose(l):
            l = sorted(l)
            return l[ctx.choose(len(l))]

        vals, seqs = [], {}
        for i, s in enumerate(right, 1):
            if s == 'PRIMITIVE':
                vals.append(choose(PRIMITIVES))
            elif s == 'REMARKABLE_ADDITION':
                vals.append(choose(REMARKABLE_ADDITION))
            elif s == 'REMARKABLE_MULTIPLICATION':
                vals.append(choose(LETTERS))
            elif s == 'PLUS':
                vals.append('+')
            elif s.startswith('LAYER') and s.endswith('_MARK'):
                vals.append(LAYER_MARKS[int(s[5])])
            elif s.startswith('script_lvl_') or s.startswith('additive_script_lvl_'):
                x = it.fresh(s, SCRIPT)
                ctx.assume(SCRIPT.z('layer', x.z) == layer_of(s))
                if s.startswith('a'):
                    ctx.assume(SCRIPT.tag(x.z) == ADD_TAG)
                vals.append(x)
            elif s.startswith('sum_lvl_'):
                l = it.fresh(s, T.Seq(SCRIPT))
                p = l.parts[0]
                ctx.assume(p.n >= 1)
                ctx.assume(forall(p.vars, p.guard, SCRIPT.z('layer', p.value.z) == layer_of(s)))
                seqs[i] = VList(l.parts)
                vals.append(l)
            else:
                raise Unsupported('symbol %s' % s)
        p = p_stub(it, vals)
        r = v.call_value(it, f, stub_obj(it, 'parser'), p)
        if not v.ensure('no exception', r.ok and p.is_set):
            return
        res = p.vals[0]
        m = made.get(res.z.get_id()) if isinstance(res, SRef) else None
        nts = [i for i, s in enumerate(right, 1) if 'lvl' in s]
        marks = [s for s in right if s.endswith('_MARK')]

        def operand(x, i):
            """x is the script denoted by the symbol i of the production, which is a part of a product"""
            y = vals[i - 1]
            if isinstance(x, SRef) and isinstance(y, SRef) and made.get(x.z.get_id()) is None:
                return x.z == y.z
            m = made.get(x.z.get_id()) if isinstance(x, SRef) else None
            if m is None or m.cls is not AdditiveScript or 'terms' not in m.kw:
                return z3.BoolVal(False)
            return same_bag(m.kw['terms'], seqs[i] if i in seqs else VList([one(y)]))

        def same_bag(a, b):
            x = it.fresh('x', SCRIPT)
            return members(it, a, x) == members(it, b, x)

        if left == 'term':
            v.ensure('a term is the script read', res.z == vals[0].z if isinstance(res, SRef) and len(right) == 1 else False)
        elif left.startswith('sum_lvl_'):
            k = layer_of(left)
            need(isinstance(res, VList), 'a sum is read as a list of scripts')
            x = it.fresh('x', SCRIPT)
            want = [members(it, seqs[i], x) if i in seqs else SCRIPT.z('_str', x.z) == SCRIPT.z('_str', vals[i - 1].z)
                    for i in nts]
            v.ensure('a sum has exactly the terms read', members(it, res, x) == z3.Or(want))
            v.ensure('the terms of a sum have its layer', for_elements(it, res, lambda y: SCRIPT.z('layer', y.z) == k))
            v.ensure('the terms are separated by +', right.count('PLUS') == len(nts) - 1 and all(
                s == 'PLUS' for s in right[1::2]) and not marks)
        elif left.startswith('additive_script_lvl_'):
            v.ensure('a sum is the script of its terms', same_bag(m.kw['terms'], seqs[nts[0]])
                     if m and m.cls is AdditiveScript and 'terms' in m.kw and len(right) == 1 and nts[0] in seqs else False)
        elif left.startswith('script_lvl_'):
            k = layer_of(left)
            v.ensure('the mark of the layer ends the script', right[-1] == 'LAYER%d_MARK' % k and len(marks) == 1)
            if nts:
                v.ensure('the parts are one layer below', all(layer_of(right[i - 1]) == k - 1 for i in nts) and
                         len(nts) == len(right) - 1 and 1 <= len(nts) <= 3)
                parts = m.kw.get('parts') if m and m.cls is MultiplicativeScript else None
                v.ensure('a product has the parts read, in order', z3.And([operand(x, i) for x, i in zip(parts, nts)])
                         if parts is not None and len(parts) == len(nts) else False)
            else:
                c = vals[0]
                if c == 'E' and k == 0:
                    v.ensure('E: is the empty script of layer 0', m is not None and m.kw == dict(null=0))
                elif k == 0 and c in REMARKABLE_ADDITION:
                    v.ensure('a letter of sum', m is not None and m.cls is AdditiveScript and m.kw == dict(character=c))
                else:
                    v.ensure('a letter of product', m is not None and m.cls is MultiplicativeScript and
                             m.kw == dict(character=c))
                    v.ensure('letters are those of their layer', (k == 0) == (c in PRIMITIVES) and k < 2)
        else:
            raise Unsupported('symbol %s' % left)
    v.paths(path, prefix='%s -> %s: ' % (left, ' '.join(right)))


WANT = {'term': {('%sscript_lvl_%d' % (a, k),) for k in range(7) for a in ('', 'additive_')}}
for _k in range(7):
    WANT['sum_lvl_%d' % _k] = {('script_lvl_%d' % _k,), ('script_lvl_%d' % _k, 'PLUS', 'sum_lvl_%d' % _k)}


@contract('P04', PARSER + 'p_term', name='actions of the grammar', total=400)
def grammar_actions(v):
    """every production: the script built is the one which the text denotes, over scripts of any size"""
    script_order(v)
    from ieml.dictionary.script.parser import ScriptParser
    ScriptParser()
    ps = productions(ScriptParser)
    v.trust('PLY builds the derivation of a text by the productions of the grammar; the text of scripts has one denotation')
    for p in ps:
        action(v, p)
    # every shape of term is read
    by = {}
    for f, l, r in ps:
        by.setdefault(l, []).append(r)
    missing = None
    for k in range(7):
        script = by.get('script_lvl_%d' % k, [])
        if k == 0:
            ok = ['PRIMITIVE', 'LAYER0_MARK'] in script and ['REMARKABLE_ADDITION', 'LAYER0_MARK'] in script
        else:
            ok = all(any(len(r) == n + 1 and 'REMARKABLE_MULTIPLICATION' not in r for r in script) for n in (1, 2, 3))
            ok = ok and (k > 1 or ['REMARKABLE_MULTIPLICATION', 'LAYER1_MARK'] in script)
        ok = ok and any('PLUS' in r for r in by.get('sum_lvl_%d' % k, [])) and any(
            len(r) == 1 for r in by.get('sum_lvl_%d' % k, []))
        if not ok and missing is None:
            missing = 'layer %d' % k
    v.finite('products of one, two or three parts and sums are read at every layer', missing, 7)


# ------------------------------------------------------------------ rendering

def text_inv(z):
    return [z3.Length(TXT.z('_str', z)) >= 2]


TXT = ObjType('Script text', [NullScript, AdditiveScript, MultiplicativeScript],
              dict(_str=T.Str, layer=T.Int, empty=T.Bool), key='_str', inv=text_inv)
TXT.attrs['children'] = T.Seq(TXT)


def scr(it, cls, **attrs):
    o = HObj(cls, epoch=it.ctx.epoch)
    o.attrs.update(attrs)
    return o


@contract('P04', SCR + 'MultiplicativeScript._do_precompute_str', name='text of a product')
def text_product(v):
    """the parts up to the last which is not empty (at least the first), then the mark of the layer; or the letter"""
    def path(it):
        ctx = it.ctx
        layer = 1 + ctx.choose(6)
        cs = [it.fresh('c%d' % i, TXT) for i in range(3)]
        o = scr(it, MultiplicativeScript, children=VList([one(c) for c in cs]), character=None, layer=layer)
        r = v.call(it, o)
        v.ensure('no exception', r.ok)
        s, e = [zstr(it.getattr(c, '_str')) for c in cs], [TXT.z('empty', c.z) for c in cs]
        want = z3.If(z3.Not(e[2]), z3.Concat(s[0], s[1], s[2]), z3.If(z3.Not(e[1]), z3.Concat(s[0], s[1]), s[0]))
        v.ensure('the parts, then the mark', zstr(o.attrs['_str']) == z3.Concat(want, z3.StringVal(LAYER_MARKS[layer])))
    v.paths(path)

    def letter(it):
        layer = it.ctx.choose(2)
        ls = [LETTERS, sorted(PRIMITIVES)][layer == 0]
        c = ls[it.ctx.choose(len(ls))]
        n = 3 if layer else 0
        o = scr(it, MultiplicativeScript, children=VList([one(it.fresh('c%d' % i, TXT)) for i in range(n)]), character=c,
                layer=layer)
        r = v.call(it, o)
        v.ensure('the letter, then the mark', r.ok and o.attrs['_str'] == c + LAYER_MARKS[layer])
    v.paths(letter)


@contract('P04', SCR + 'AdditiveScript._do_precompute_str', name='text of a sum')
def text_sum(v):
    def path(it):
        n = it.ctx.choose(5) + 1
        cs = [it.fresh('c%d' % i, TXT) for i in range(n)]
        o = scr(it, AdditiveScript, children=VList([one(c) for c in cs]), character=None, layer=1 + it.ctx.choose(6))
        r = v.call(it, o)
        s = [zstr(it.getattr(c, '_str')) for c in cs]
        want = s[0]
        for x in s[1:]:
            want = z3.Concat(want, z3.StringVal('+'), x)
        v.ensure('the terms joined by + (1 to 5 terms)', r.ok and zstr(o.attrs['_str']) == want)

    def letter(it):
        ls = sorted(REMARKABLE_ADDITION)
        c = ls[it.ctx.choose(len(ls))]
        o = scr(it, AdditiveScript, children=it.fresh('c', T.Seq(TXT)), character=c, layer=0)
        r = v.call(it, o)
        v.ensure('the letter, then the mark', r.ok and o.attrs['_str'] == c + ':')
    v.paths(path)
    v.paths(letter)


@contract('P04', SCR + 'NullScript._do_precompute_str', name='text of the empty script')
def text_null(v):
    def path(it):
        layer = it.ctx.choose(MAX_LAYER)
        o = scr(it, NullScript, character='E', layer=layer)
        r = v.call(it, o)
        v.ensure('E, then the marks of the layers', r.ok and o.attrs['_str'] == 'E' + ''.join(LAYER_MARKS[:layer + 1]))
    v.paths(path)


# ------------------------------------------------------------------ lexer

@contract('P04', 'ieml.dictionary.script.parser.lexer:get_script_lexer', name='lexer')
def lexer(v):
    """every text of marks, letters and + of length 1 or 2 is cut in the tokens of the language"""
    from ieml.dictionary.script.parser.lexer import get_script_lexer
    lx = get_script_lexer()
    kind = {c: 'PRIMITIVE' for c in PRIMITIVES}
    kind.update({c: 'REMARKABLE_ADDITION' for c in REMARKABLE_ADDITION})
    kind.update({c: 'REMARKABLE_MULTIPLICATION' for c in LETTERS})
    kind.update({c: 'LAYER%d_MARK' % i for i, c in enumerate(LAYER_MARKS)})
    kind.update({'+': 'PLUS', '’': 'LAYER3_MARK'})
    bad, n = None, 0
    two = {a + b for a in kind for b in kind}

    def toks(s):
        lx.input(s)
        return [(t.type, t.value) for t in lx]
    for a in kind:
        for b in [''] + list(kind):
            if a and b and any(x.startswith(a) and x != a and (a + b).startswith(x) for x in kind):
                continue     # 'w'... : a longer letter
            n += 1
            want = [(kind[x], x) for x in (a, b) if x]
            if bad is None and toks(a + b) != want:
                bad = a + b
    v.finite('two tokens in a row are read as such, each with its type', bad, n)
    v.trust('PLY gives the longest alternatives of a token in the order of its regular expression, at every position alike')


# ------------------------------------------------------------------ parsing, pickling, script()

@contract('P04', PARSER + 't_parse', name='t_parse')
def t_parse(v):
    """the script of the grammar, or CannotParse; the lock is released"""
    def path(it):
        text, res = SStr(it.ctx.fresh('text', z3.StringSort())), it.fresh('result', SCRIPT)
        fails = bool(it.ctx.choose(2))
        log = []

        def parse(it, a, k):
            log.append('parse')
            v.ensure('under the lock', log == ['enter', 'parse'])
            v.ensure('the text given', zstr(a[0]) == text.z)
            if fails:
                raise Raised(ExcVal(InvalidScript, ('message',)))
            return res
        lock = stub_obj(it, 'lock')
        lock.methods = {'__enter__': lambda it, o: Stub(lambda it, a, k: log.append('enter')),
                        '__exit__': lambda it, o: Stub(lambda it, a, k: log.append('exit'))}
        parser = stub_obj(it, 'yacc')
        parser.methods = {'parse': lambda it, o: Stub(parse)}
        from ieml.dictionary.script.parser import ScriptParser
        o = stub_obj(it, 'ScriptParser', lock=lock, parser=parser, lexer=stub_obj(it, 'lexer'))
        r = v.call(it, o, text)
        v.ensure('the lock is released', log == ['enter', 'parse', 'exit'])
        if fails:
            v.ensure('CannotParse when the grammar refuses', r.raises(CannotParse))
        else:
            v.ensure('the script of the grammar', r.ok and r.value.z == res.z if isinstance(r.value, SRef) else False)
    v.paths(path)


@contract('P04', PARSER + 'p_error', name='p_error')
def p_error(v):
    def path(it):
        tok = None if it.ctx.choose(2) else stub_obj(it, 'token', value='x', lineno=1, lexpos=2)
        r = v.call(it, stub_obj(it, 'parser'), tok)
        v.ensure('a text out of the grammar is refused', r.raises(InvalidScript))
    v.paths(path)


@contract('P04', SCR + 'Script.__getnewargs_ex__', name='pickle')
def pickling(v):
    """an object remade by pickle has its text (hence its hash and equality) before its attributes are restored"""
    def path(it):
        cls = (NullScript, AdditiveScript, MultiplicativeScript)[it.ctx.choose(3)]
        text = SStr(it.ctx.fresh('text', z3.StringSort()))
        o = scr(it, cls, _str=text)
        r = v.call(it, o)
        if not v.ensure('no exception', r.ok):
            return
        args, kw = it.to_seq(r.value).items()
        args = it.to_seq(args).items()
        need(isinstance(kw, VDict) and all(not p.vars and isinstance(p.value[0], str) for p in kw.parts), 'keywords')
        r2 = v.call(it, cls, *args, target=SCR + 'Script.__new__', **{p.value[0]: p.value[1] for p in kw.parts})
        v.ensure('the text is restored by __new__', r2.ok and isinstance(r2.value, HObj) and r2.value.cls is cls and
                 '_str' in r2.value.attrs and zstr(r2.value.attrs['_str']) == text.z if r2.ok else False)
        h1, h2 = v.call(it, o, target=SCR + 'Script.__hash__'), v.call(it, r2.value, target=SCR + 'Script.__hash__')
        v.ensure('same hash', h1.ok and h2.ok and zint(h1.value) == zint(h2.value))
        e = v.call(it, o, r2.value, target=SCR + 'Script.__eq__')
        v.ensure('equal', e.ok and zbool(it, e.value))
    v.paths(path)


@contract('P04', 'ieml.dictionary.script.operator:script', name='script()')
def operator(v):
    def path(it):
        ctx = it.ctx
        res, fact = it.fresh('parsed', SCRIPT), it.fresh('factorized', SCRIPT)
        text = SStr(ctx.fresh('text', z3.StringSort()))
        seen = []

        def parse(it, a, k):
            seen.append(a[-1])
            return res
        sp = stub_obj(it, 'ScriptParser')
        sp.methods = {'parse': lambda it, o: Stub(parse)}
        ctx.contracts['ieml.dictionary.script.parser.parser:ScriptParser'] = lambda it, a, k: sp
        promote = bool(ctx.choose(2))

        def factorize(it, a, k):
            x = bind(lambda script, promote=False: 0, a, k)
            v.ensure('factorizes the script, with the option promote', x['promote'] is promote and (
                x['script'].z == want.z))
            return fact
        ctx.contracts['ieml.dictionary.script.tools:factorize'] = factorize
        kind, do = ctx.choose(3), bool(ctx.choose(2))
        s = it.fresh('s', SCRIPT)
        arg = (text, s, 12)[kind]
        want = (res, s, None)[kind]
        r = v.call(it, arg, promote=promote, factorize=do)
        if kind == 2:
            v.ensure('neither a text nor a script: ValueError', r.raises(ValueError))
            return
        v.ensure('a text is parsed, a script is itself', r.ok and isinstance(r.value, SRef) and
                 r.value.z == (fact if do else want).z if r.ok else False)
        v.ensure('the text is that given', (len(seen) == 1 and zstr(seen[0]) == text.z) if kind == 0 else not seen)
    v.paths(path)
