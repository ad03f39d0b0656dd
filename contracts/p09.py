"""P09: the text of USLs: normal forms of the constructors, rendering, grammar."""
from .grammar import *
from .uslcommon import *
from .p04 import TXT, scr
from .p10 import GRP, PMOD, usl_obj
from ieml.dictionary.script.script import NULL_SCRIPTS

LEX = 'ieml.usl.lexeme:'


def group_of(it, x):
    """a group as (sequence of scripts, multiplicity)"""
    if isinstance(x, SRef):
        return it.getattr(x, 'morphemes') if False else it.getitem(x, 0), zint(it.getitem(x, 1))
    a, b = it.to_seq(x).items()
    return it.to_seq(a), zint(b)


@contract('P09', PMOD + 'PolyMorpheme.__init__', name='normal form of polymorphemes', timeout=30)
def pm_init(v):
    """the constants without the empty ones, in order (E: when there is none); the groups in order, each with its morphemes
    without the empty ones, in order, and its multiplicity"""
    script_order(v)
    v.trust('groups, which are tuples (tuple of scripts, number), are totally ordered compatibly with ==')
    f = lambda a, z: SCRIPT.z(a, z)

    def path(it):
        it.box_types = [GRP]
        nogroup = it.ctx.choose(2)
        c = it.fresh('c', T.Seq(SCRIPT))
        g = () if nogroup else it.fresh('g', T.Seq(GRP))
        o = usl_obj(it, PolyMorpheme)
        r = v.call(it, o, c, g)
        if not v.ensure('no exception', r.ok):
            return
        x = it.fresh('x', SCRIPT)
        mem = lambda l: members(it, l, x)
        out = it.to_seq(o.attrs['constant'])
        some = some_element(it, c, lambda y: z3.Not(f('empty', y.z)))
        if out.concrete and len(out.parts) == 1 and out.items()[0] is NULL_SCRIPTS[0]:
            v.ensure('E: only without constant', z3.Not(some))
        else:
            v.ensure('not empty', some)
            v.ensure('the constants are those given, without the empty ones', mem(out) == some_element(
                it, c, lambda y: z3.And(f('_str', y.z) == f('_str', x.z), z3.Not(f('empty', y.z)))))
            p = out.parts[0]
            lt = it.type_lt(SCRIPT)
            i, j = z3.Ints('oi oj')
            v.ensure('the constants are in order', z3.ForAll([i, j], z3.Implies(
                z3.And(i >= 0, i < j, j < p.n), z3.Not(lt(at(out, j).z, at(out, i).z)))))
        gs = it.to_seq(o.attrs['groups'])
        if nogroup:
            v.ensure('no group when none is given', it.length(gs) == 0)
            return
        n = gs.parts[0].n
        v.ensure('as many groups', n == g.parts[0].n)
        k = it.ctx.fresh('k', z3.IntSort())
        it.ctx.assume(z3.And(k >= 0, k < n))
        i, j = z3.Ints('gi gj')
        y = at(gs, k)
        glt = it.type_lt(GRP)
        v.ensure('the groups are in order', z3.ForAll([i, j], z3.Implies(
            z3.And(i >= 0, i < j, j < n), z3.Not(glt(at(gs, j).z, at(gs, i).z)))))
        ms, mult = group_of(it, y)
        M, N = lambda i: at(ms, i).z, ms.parts[0].n
        lt = it.type_lt(SCRIPT)
        v.ensure('the morphemes of a group are in order', z3.ForAll([i, j], z3.Implies(
            z3.And(i >= 0, i < j, j < N), z3.Not(lt(M(j), M(i))))))

        def same_group(src, ms, mult):
            s, m2 = group_of(it, src)
            a, b = z3.Ints('ga gb')
            A = lambda q: at(s, q).z
            na, nm = s.parts[0].n, ms.parts[0].n
            B = lambda q: at(ms, q).z
            return z3.And(m2 == mult,
                          z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < na, z3.Not(f('empty', A(a)))), z3.Exists(
                              [b], z3.And(b >= 0, b < nm, B(b) == A(a))))),
                          z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < nm), z3.Exists([a], z3.And(
                              a >= 0, a < na, A(a) == B(b), z3.Not(f('empty', A(a))))))))
        v.ensure('each group is one of those given, without its empty morphemes', some_element(
            it, g, lambda src: same_group(src, ms, mult)))
    v.paths(path)


# ------------------------------------------------------------------ texts

def pm_text_inv(z):
    return [PMT.z('empty', z) == (PMT.z('_str', z) == '')]      # proved by 'text of polymorphemes'


PMT = ObjType('PolyMorpheme text', [PolyMorpheme], dict(_str=T.Str, empty=T.Bool, grammatical_class=T.Int), key='_str',
              inv=pm_text_inv)
PMT.attrs.update(constant=T.Seq(SCRIPT, 'tuple'), groups=T.Seq(GRP, 'tuple'))
PMT.fields = None


def S_(x):
    return zstr(x)


def cat(*l):
    l = [S_(x) if not isinstance(x, z3.ExprRef) else x for x in l]
    return z3.Concat(*l) if len(l) > 1 else l[0]


def joined(l, sep):
    out = []
    for x in l:
        out += [sep, x] if out else [x]
    return cat(*out) if out else z3.StringVal('')


MS = ObjType('Morpheme text', [Script], dict(_str=T.Str, empty=T.Bool, grammatical_class=T.Int), key='_str',
             inv=lambda z: [z3.Length(MS.z('_str', z)) >= 2])


@contract('P09', PMOD + 'PolyMorpheme.__init__', name='text of polymorphemes', timeout=20, total=300)
def pm_text(v):
    """constants, then groups, separated by blanks (up to 3 constants and 2 groups of up to 2 morphemes, of any text)"""
    def lt(it, a, k):
        return SBool(it.type_lt(MS)(a[0].z, a[1].z))
    v.use(SCR + 'Script.__lt__', lt)
    SHAPES = [(0, ()), (1, ()), (2, ()), (3, ()), (0, (1,)), (1, (2,)), (1, (1, 1)), (0, (2, 1))]

    def path(it):
        nc, gs = SHAPES[it.ctx.choose(len(SHAPES))]
        cs = [it.fresh('c%d' % i, MS) for i in range(nc)]
        ms = [[it.fresh('m%d%d' % (i, j), MS) for j in range(n)] for i, n in enumerate(gs)]
        mult = [1 + it.ctx.choose(3) for _ in gs]
        for x in cs + [m for l in ms for m in l]:
            it.ctx.assume(z3.Not(MS.z('empty', x.z)))
        o = usl_obj(it, PolyMorpheme)
        r = v.call(it, o, VList([one(c) for c in cs]), VList([one((VList([one(m) for m in l]), n)) for l, n in zip(ms, mult)]))
        if not v.ensure('no exception', r.ok):
            return
        text = lambda x: S_(it.getattr(x, '_str'))
        pieces = [text(x) for x in it.to_seq(o.attrs['constant']).items()] if nc else []
        for g in it.to_seq(o.attrs['groups']).items():
            l, n = it.to_seq(g).items()
            pieces.append(cat('m%s(' % n, joined([text(m) for m in it.to_seq(l).items()], ' '), ')'))
        v.ensure('the pieces are separated by blanks', S_(o.attrs['_str']) == joined(pieces, ' '))
        o.attrs['constant'] = it.to_seq(o.attrs['constant'])
        e = v.call(it, o, target=PMOD + 'PolyMorpheme.empty')
        v.ensure('empty iff its text is', e.ok and zbool(it, e.value) == (S_(o.attrs['_str']) == ''))
    v.paths(path)


def lexeme_object(v, it):
    c, f = it.fresh('content', PMT), it.fresh('flexion', PMT)
    ce, fe = bool(it.ctx.choose(2)), bool(it.ctx.choose(2))
    it.ctx.assume(PMT.z('empty', c.z) == ce)
    it.ctx.assume(PMT.z('empty', f.z) == fe)
    o = usl_obj(it, Lexeme)
    return o, c, f, ce, fe, v.call(it, o, f, c, target=LEX + 'Lexeme.__init__')


@contract('P09', LEX + 'Lexeme.__init__', name='text of lexemes')
def lexeme_text(v):
    def path(it):
        o, c, f, ce, fe, r = lexeme_object(v, it)
        if not v.ensure('no exception', r.ok):
            return
        fs, cs = S_(it.getattr(f, '_str')), S_(it.getattr(c, '_str'))
        want = cat('()') if ce and fe else cat('(', fs, ')') if ce else cat('(', fs, ')(', cs, ')')
        v.ensure('the inflection, then the content unless it is empty', S_(o.attrs['_str']) == want)
        v.ensure('its parts are those given', z3.And(o.attrs['pm_flexion'].z == f.z, o.attrs['pm_content'].z == c.z))
        v.ensure('the class is that of the content', zint(o.attrs['grammatical_class']) == PMT.z('grammatical_class', c.z))
    v.paths(path)

    def wrong(it):
        a = [it.fresh('p', PMT), it.fresh('m', SCRIPT)]
        i = it.ctx.choose(2)
        r = v.call(it, usl_obj(it, Lexeme), a[i], a[1 - i])
        v.ensure('made of polymorphemes only', r.raises(ValueError))
    v.paths(wrong)


# ------------------------------------------------------------------ grammar

from ieml.usl.syntagmatic_function import (ProcessSyntagmaticFunction, DependantQualitySyntagmaticFunction,   # noqa
                                           IndependantQualitySyntagmaticFunction)
UP = 'ieml.usl.parser.parser:IEMLParser.'
SF = 'ieml.usl.syntagmatic_function:'
LEXR = ObjType('Lexeme parsed', [Lexeme], dict(_str=T.Key), key='_str')
LEXR.attrs.update(pm_flexion=T.Obj(PMT), pm_content=T.Obj(PMT))
POS = ObjType('Positioned lexeme', [tuple], dict(k=T.Key), key='k')
POS.attrs.update(role=T.Seq(SCRIPT), lexeme=T.Obj(LEXR))
POS.fields = ['role', 'lexeme']
WORDR = ObjType('Word parsed', [Word], dict(_str=T.Key), key='_str')
ROLER = ObjType('Role parsed', [SyntagmaticRole], dict(_str=T.Key), key='_str')
FUN = ObjType('Function parsed', [ProcessSyntagmaticFunction], dict(k=T.Key), key='k')
TERMS = {'LPAREN': '(', 'RPAREN': ')', 'LBRACKET': '[', 'RBRACKET': ']', 'RCHEVRON': '>', 'EXCLAMATION_MARK': '!',
         'OLD_MORPHEME_GRAMMATICAL_CLASS': 'E:.b.E:S:.-'}


def recorder(it):
    rec = Recorder(it)
    pm_facts = lambda r, x: []
    rec.stub(PMOD + 'PolyMorpheme', PMT, 'constant=(), groups=()')
    rec.stub(LEX + 'Lexeme', LEXR, 'pm_flexion, pm_content')
    rec.stub('ieml.usl.word:Word', WORDR, 'syntagmatic_fun, role, context_type')
    rec.stub(SF + 'SyntagmaticRole', ROLER, 'constant=()')
    return rec


def symbol(it, s):
    """a value of a symbol of the grammar, by its contract"""
    ctx = it.ctx
    if s in TERMS:
        return TERMS[s]
    nonempty = lambda l: (ctx.assume(l.parts[0].n >= 1), l)[1]
    if s == 'morpheme':
        return it.fresh(s, SCRIPT)
    if s == 'morpheme_sum':
        return nonempty(it.fresh(s, T.Seq(SCRIPT)))
    if s == 'group':
        return it.fresh(s, GRP)
    if s == 'group_list':
        return nonempty(it.fresh(s, T.Seq(GRP)))
    if s == 'poly_morpheme':
        return it.fresh(s, PMT)
    if s == 'lexeme':
        return it.fresh(s, LEXR)
    if s == 'positioned_lexeme':
        return it.fresh(s, POS)
    if s == 'lexeme_list':
        l = nonempty(it.fresh(s, T.Seq(POS)))
        return (l, None if ctx.choose(2) else it.fresh('role', T.Seq(SCRIPT)))
    if s == 'word':
        return it.fresh(s, WORDR)
    if s == 'GROUP_MULTIPLICITY':
        d = ctx.fresh('mult', z3.StringSort())
        ctx.assume(z3.InRe(d, z3.Plus(z3.Range('0', '9'))))
        return SStr(z3.Concat(z3.StringVal('m'), d))
    if s in ('usl', 'instanced_usl', 'decoration', 'decoration_list', 'USL_PATH', 'DECORATION_VALUE', 'MORPHEME'):
        return stub_obj(it, s)
    raise Unsupported('symbol %s' % s)


def empty_pm(rec, x):
    m = rec.of(x)
    if m is None or m[0] != 'PolyMorpheme':
        return False
    return all(isinstance(y, (tuple, VList)) and not len(y if isinstance(y, tuple) else y.parts) for y in m[1].values())


def usl_action(v, production):
    f, left, right = production
    text = ' '.join(right)

    def path(it):
        rec = recorder(it)
        vals = [symbol(it, s) for s in right]
        sym = {}
        for s, x in zip(right, vals):
            sym.setdefault(s, []).append(x)
        keep = [VList(x.parts) if isinstance(x, VList) else (VList(x[0].parts), x[1]) if isinstance(x, tuple) else x for x in vals]
        p = p_stub(it, vals)
        parser = stub_obj(it, 'parser', dictionary=None, factorize_script=False)
        called = []

        def from_list(it, a, k):
            called.append(a[0])
            return (ProcessSyntagmaticFunction, fun)
        fun = it.fresh('function', FUN)
        it.ctx.contracts[SF + 'SyntagmaticFunction.from_list'] = from_list
        merged = it.fresh('merged', T.Seq(SCRIPT))
        it.ctx.contracts['ieml.usl.parser.parser:_merge_focus'] = lambda it, a, k: merged
        parse = it.fresh('script', SCRIPT)
        it.ctx.contracts['ieml.dictionary.script.operator:script'] = lambda it, a, k: (called.append(a[0]), parse)[1]
        r = v.call_value(it, f, parser, p)
        res = p.vals[0]
        val = lambda s: keep[right.index(s)]
        if left == 'word':
            lst, role = val('lexeme_list')
            if role is None:
                v.ensure('a word without role singled out is refused', r.raises(ValueError))
                return
            if not r.ok:
                v.ensure('refused only for an empty role', z3.And(z3.BoolVal(r.raises(ValueError)), role.parts[0].n == 0))
                return
        if not v.ensure('no exception', r.ok and p.is_set):
            return
        m = rec.of(res)
        if left in ('proposition', 'usl'):
            v.ensure('the expression read', len(right) == 1 and (res is vals[0] or isinstance(res, SRef) and res.z == vals[0].z))
        elif left == 'morpheme':
            v.ensure('the script of the text', isinstance(res, SRef) and res.z == parse.z and called[0] is vals[0])
        elif left == 'morpheme_sum':
            v.ensure('the morphemes read', same_elems(it, res, VList([q for s, x in zip(right, keep) for q in (
                x.parts if s == 'morpheme_sum' else [one(x)])])))
            v.ensure('shape', text in ('morpheme_sum morpheme', 'morpheme'))
        elif left == 'group':
            l, n = it.to_seq(res).items()
            t = vals[0].z
            v.ensure('the morphemes of the group, and its multiplicity', z3.And(same_elems(it, l, val('morpheme_sum')), zint(n) ==
                     z3.StrToInt(z3.SubString(t, 1, z3.Length(t) - 1))))
            v.ensure('shape', text == 'GROUP_MULTIPLICITY LPAREN morpheme_sum RPAREN')
        elif left == 'group_list':
            v.ensure('the groups read', same_elems(it, res, VList([q for s, x in zip(right, keep) for q in (
                x.parts if s == 'group_list' else [one(x)])])))
            v.ensure('shape', text in ('group group_list', 'group'))
        elif left == 'poly_morpheme':
            a = m[1] if m and m[0] == 'PolyMorpheme' else None
            nothing = VList([])
            v.ensure('of the constants and groups read', z3.And(
                same_elems(it, a['constant'], val('morpheme_sum') if 'morpheme_sum' in right else nothing),
                same_elems(it, a['groups'], val('group_list') if 'group_list' in right else nothing)) if a else False)
            v.ensure('shape', text in ('morpheme_sum group_list', 'morpheme_sum', 'group_list'))
        elif left == 'lexeme':
            places = lexeme_places(right)
            a = m[1] if m and m[0] == 'Lexeme' else None
            if not v.ensure('a lexeme', a is not None and places is not None):
                return
            if len(places) == 3:       # older writing: not the text of a lexeme
                return
            fl, co = places + [None] * (2 - len(places))
            for what, i in (('pm_flexion', fl), ('pm_content', co)):
                x = a[what]
                v.ensure('of the polymorphemes between its parentheses', empty_pm(rec, x) if i is None else
                         isinstance(x, SRef) and x.z == keep[i].z)
        elif left == 'positioned_lexeme':
            ro, le = it.to_seq(res).items()
            v.ensure('the scripts of the role, and the lexeme', z3.And(
                same_elems(it, ro, val('morpheme_sum') if 'morpheme_sum' in right else VList([])), le.z == val('lexeme').z))
            v.ensure('shape', text in ('morpheme_sum lexeme', 'lexeme'))
        elif left == 'lexeme_list':
            l, ro = it.to_seq(res).items()
            x = val('positioned_lexeme')
            before = val('lexeme_list') if 'lexeme_list' in right else (VList([]), None)
            v.ensure('the lexemes read', same_elems(it, l, VList(before[0].parts + [one(x)])))
            mine = it.getitem(x, 0)
            if 'EXCLAMATION_MARK' not in right:
                v.ensure('the role singled out is that marked', ro is None if before[1] is None else
                         same_elems(it, ro, before[1]) if ro is not None else False)
            elif 'lexeme_list' not in right:
                v.ensure('the role singled out is that marked', same_elems(it, ro, mine) if ro is not None else False)
            else:
                v.ensure('several roles marked are those of a junction', ro is merged or same_elems(it, ro, merged))
            v.ensure('shape', text in ('lexeme_list RCHEVRON EXCLAMATION_MARK positioned_lexeme', 'positioned_lexeme',
                                       'lexeme_list RCHEVRON positioned_lexeme', 'EXCLAMATION_MARK positioned_lexeme'))
        elif left == 'word':
            a = m[1] if m and m[0] == 'Word' else None
            if not v.ensure('a word', a is not None):
                return
            v.ensure('of the function of the lexemes read', z3.And(
                same_elems(it, called[0], lst), a['syntagmatic_fun'].z == fun.z) if len(called) == 1 else False)
            v.ensure('of the kind of this function', a['context_type'] is ProcessSyntagmaticFunction)
            ra = rec.of(a['role'])
            v.ensure('whose role is that marked', same_elems(it, ra[1]['constant'], role) if ra else False)
    if left in ('instanced_usl', 'decoration_list', 'decoration'):
        return                          # P15
    v.paths(path, prefix='%s -> %s: ' % (left, text))


def lexeme_places(right):
    """positions of the polymorphemes of a lexeme: one for each pair of parentheses (None when it is empty)"""
    r, i = [], 0
    while i < len(right):
        if right[i] != 'LPAREN':
            return None
        if right[i + 1:i + 2] == ['RPAREN']:
            r.append(None)
            i += 2
        elif right[i + 1:i + 3] == ['poly_morpheme', 'RPAREN']:
            r.append(i + 1)
            i += 3
        else:
            return None
    return r


@contract('P09', UP + 'p_ieml_proposition', name='actions of the grammar', total=400)
def grammar_actions(v):
    from ieml.usl.parser import IEMLParser
    v.trust('PLY builds the derivation of a text by the productions of the grammar; the text of USLs has one derivation')
    ps = productions(IEMLParser)
    for p in ps:
        usl_action(v, p)
    by = {}
    for f, l, r in ps:
        by.setdefault(l, set()).add(' '.join(r))
    L, R, P = 'LPAREN', 'RPAREN', 'poly_morpheme'
    want = dict(proposition={'morpheme', 'usl', 'instanced_usl'}, usl={'poly_morpheme', 'lexeme', 'word'},
                morpheme_sum={'morpheme', 'morpheme_sum morpheme'}, group={'GROUP_MULTIPLICITY LPAREN morpheme_sum RPAREN'},
                group_list={'group', 'group group_list'}, poly_morpheme={'morpheme_sum', 'morpheme_sum group_list', 'group_list'},
                lexeme={'LPAREN RPAREN', 'LPAREN poly_morpheme RPAREN', 'LPAREN RPAREN LPAREN poly_morpheme RPAREN',
                        'LPAREN poly_morpheme RPAREN LPAREN poly_morpheme RPAREN'},
                word={'LBRACKET lexeme_list RBRACKET'})
    bad = [(l, x) for l in want for x in want[l] if x not in by.get(l, ())]
    # equivalent grammars are possible (left or right recursion): only decides when the rules are those known
    if not bad:
        v.finite('every form of text written by the constructors is read', None, sum(map(len, want.values())))
    else:
        v.undecided('every form of text written by the constructors is read', 'other rules: %s' % (bad[0],))


@contract('P09', LEX + 'Lexeme.__init__', name='a lexeme is read back')
def lexeme_back(v):
    """composition of the constructor and of the grammar: the text of a lexeme, cut in tokens, derives from one production whose
    action makes a lexeme of the same polymorphemes"""
    from ieml.usl.parser import IEMLParser
    prods = {tuple(r): f for f, l, r in productions(IEMLParser) if l == 'lexeme'}

    def path(it):
        o, c, f, ce, fe, r = lexeme_object(v, it)
        if not v.ensure('no exception', r.ok):
            return
        text = S_(o.attrs['_str'])
        fs, cs = S_(it.getattr(f, '_str')), S_(it.getattr(c, '_str'))
        forms = {('LPAREN', 'RPAREN'): (cat('()'), [None, None]),
                 ('LPAREN', 'poly_morpheme', 'RPAREN'): (cat('(', fs, ')'), [f, None]),
                 ('LPAREN', 'RPAREN', 'LPAREN', 'poly_morpheme', 'RPAREN'): (cat('()(', cs, ')'), [None, c]),
                 ('LPAREN', 'poly_morpheme', 'RPAREN', 'LPAREN', 'poly_morpheme', 'RPAREN'): (cat('(', fs, ')(', cs, ')'), [f, c])}
        form = (('LPAREN',) + (() if fe else ('poly_morpheme',)) + ('RPAREN',) +
                (() if ce else ('LPAREN', 'poly_morpheme', 'RPAREN')))
        want, parts = forms[form]
        v.ensure('the text has the form of a lexeme of the grammar', text == want)
        need(form in prods, 'production of a lexeme')
        rec = recorder(it)
        todo = [x for x in parts if x is not None]
        vals = [TERMS[s] if s in TERMS else todo.pop(0) for s in form]
        p = p_stub(it, vals)
        r = v.call_value(it, prods[form], stub_obj(it, 'parser'), p)
        m = rec.of(p.vals[0]) if r.ok else None
        if v.ensure('it is read as a lexeme', m is not None and m[0] == 'Lexeme'):
            for x, what, e in ((f, 'pm_flexion', fe), (c, 'pm_content', ce)):
                y = m[1][what]
                v.ensure('of the same polymorphemes', empty_pm(rec, y) if e else y.z == x.z)
    v.paths(path)


@contract('P09', UP + 'parse', name='parse')
def parse(v):
    from ieml.exceptions import CannotParse

    def path(it):
        kind = it.ctx.choose(4)
        log = []
        lock = stub_obj(it, 'lock')
        lock.methods = {'__enter__': lambda it, o: Stub(lambda it, a, k: log.append('enter')),
                        '__exit__': lambda it, o: Stub(lambda it, a, k: log.append('exit'))}
        outcome = it.ctx.choose(3)
        res = stub_obj(it, 'result')

        def run(it, a, k):
            log.append('parse')
            v.ensure('reads the text given', zbool(it, it.eq(a[0], text)))
            if outcome == 1:
                raise Raised(ExcVal(ValueError, ('refused',)))
            if outcome == 2:
                raise Raised(it.call(CannotParse, [None, 'syntax'], {}))
            return res
        yacc = stub_obj(it, 'yacc')
        yacc.methods = {'parse': lambda it, o: Stub(run)}
        o = stub_obj(it, 'parser', lock=lock, parser=yacc, lexer=stub_obj(it, 'lexer'), factorize_script=False)
        text = SStr(it.ctx.fresh('text', z3.StringSort()))
        if kind == 0:
            arg = text = ''
        elif kind == 1:
            it.ctx.assume(text.z != '')
            arg = text
        else:
            arg = it.fresh('arg', (None, None, PMT, MS)[kind])
            text = it.getattr(arg, '_str')
            it.ctx.assume(text.z != '')
        r = v.call(it, o, arg)
        if kind == 0:
            v.ensure('the empty text is the empty morpheme', r.ok and isinstance(r.value, Script) and str(r.value) == 'E:'
                     if r.ok and not isinstance(r.value, HObj) else r.ok and r.value.attrs['_str'] == 'E:')
            return
        v.ensure('under the lock, which is released', log == ['enter', 'parse', 'exit'])
        if outcome == 0:
            v.ensure('the result of the grammar', r.ok and r.value is res)
        else:
            v.ensure('refused with CannotParse', r.raises(CannotParse))
    v.paths(path)


@contract('P09', UP + 'p_error', name='p_error')
def p_error(v):
    from ieml.exceptions import CannotParse

    def path(it):
        tok = None if it.ctx.choose(2) else stub_obj(it, 'token', value='x', lineno=1, lexpos=2)
        r = v.call(it, stub_obj(it, 'parser'), tok)
        v.ensure('a text out of the grammar is refused', r.raises(CannotParse))
    v.paths(path)


@contract('P09', 'ieml.usl.parser.lexer:get_lexer', name='tokens', timeout=30, total=300)
def tokens(v):
    """the pieces of the texts of USLs are read as the tokens of the grammar"""
    from .lexing import reads, script_texts, chars, seq
    from ieml.usl.parser.lexer import get_lexer
    lx = get_lexer()
    def path(it):
        old = seq(z3.Re('E:.b.E:'), chars('SBT'), z3.Re(':.-'))
        reads(v, lx, 'token', 'morphemes', 'MORPHEME', script_texts(), ' )](', after=' ([', but=old)
        reads(v, lx, 'token', 'morphemes of the old classes', 'OLD_MORPHEME_GRAMMATICAL_CLASS', old, ' )](', after=' ([')
        reads(v, lx, 'token', 'multiplicities', 'GROUP_MULTIPLICITY', seq(z3.Re('m'), z3.Plus(z3.Range('0', '9'))), '(',
              end=False, after=' (')
        for c, t, after in ('(', 'LPAREN', None), (')', 'RPAREN', None), ('[', 'LBRACKET', None), (']', 'RBRACKET', None), \
                ('>', 'RCHEVRON', ' '), ('!', 'EXCLAMATION_MARK', None):
            reads(v, lx, 'token', c, t, z3.Re(c), None, after=after)
    v.paths(path)
    v.finite('blanks are skipped', None if ' ' in lx.lexignore else ' ', 1)
    v.trust('the texts of scripts are letters with marks in the order of layers (P04)')
    v.trust('a regular expression whose alternatives differ by their next character matches the longest text; PLY tries the '
            'rules in the order of its master expression')
