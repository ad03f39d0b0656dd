"""P15: literals attached to the components of a USL."""
from .grammar import *
from .uslcommon import *
from .p09 import S_, cat
from .p10 import usl_obj
from .p13 import PA, PR
from pyvc.sym import Sym
from ieml.commons import DecoratedComponent
from ieml.usl.decoration.path import UslPath, FlexionPath, RolePath, DeferenceError
from ieml.usl.decoration.instance import Decoration, InstancedUSL, LiteralContext

IN = 'ieml.usl.decoration.instance:'
DC = 'ieml.commons:DecoratedComponent.'


def context(it, stack=()):
    """the context of literals of the module, with this stack"""
    c = usl_obj(it, LiteralContext, stack=VList([one(x) for x in stack]))
    it.globals['ieml.usl.decoration.instance', '__literal_context'] = c
    return c


def text(it, n):
    return SStr(it.ctx.fresh(n, z3.StringSort()))


@contract('P15', DC + 'set_literal', name='literal of a component')
def literal(v):
    """the literal set is the one got; setting it is noted in the context, once, and nothing else is"""
    def path(it):
        before = [usl_obj(it, PolyMorpheme, _literal=text(it, 'old'))] if it.ctx.choose(2) else []
        c = context(it, before)
        o = usl_obj(it, PolyMorpheme, _literal=None if it.ctx.choose(2) else text(it, 'l0'))
        t = text(it, 't')
        r = v.call(it, o, t)
        g = v.call(it, o, target=DC + 'get_literal')
        v.ensure('the literal is the one set', zbool(it, it.eq(g.value, t)) if r.ok and g.ok and g.value is not None else False)
        st = it.to_seq(c.attrs['stack']).items()
        v.ensure('it is noted in the context', len(st) == len(before) + 1 and any(x is o for x in st) and
                 all(any(x is y for x in st) for y in before))
        for x in before:
            v.ensure('no other literal changes', not (x.attrs['_literal'] is None))
        r = v.call(it, o, target=DC + 'clear_literal')
        g = v.call(it, o, target=DC + 'get_literal')
        v.ensure('cleared', r.ok and g.ok and g.value is None)
    v.paths(path)


@contract('P15', IN + 'LiteralContext.__exit__', name='context of literals')
def exit_(v):
    """at the end every component noted has no literal, whatever happened; the context notes nothing from before"""
    def path(it):
        n = it.ctx.choose(4)
        comps = [usl_obj(it, PolyMorpheme, _literal=text(it, 'l%d' % i)) for i in range(n)]
        c = context(it, comps)
        exc = it.ctx.choose(2)
        e = (DeferenceError, ExcVal(DeferenceError, ('refused',)), None) if exc else (None, None, None)
        r = v.call(it, c, *e)
        if not v.ensure('no exception', r.ok):
            return
        v.ensure('the exception goes on', zbool(it, r.value) == z3.BoolVal(False))
        v.ensure('no literal remains', all(x.attrs['_literal'] is None for x in comps))
        v.ensure('nothing is noted', len(it.to_seq(c.attrs['stack']).parts) == 0)
        c = context(it, comps)
        r = v.call(it, c, target=IN + 'LiteralContext.__enter__')
        v.ensure('nothing is noted at the start', r.ok and len(it.to_seq(c.attrs['stack']).parts) == 0)
    v.paths(path)


@contract('P15', IN + 'Decoration.apply', name='applied at its path')
def apply(v):
    def path(it):
        ok = it.ctx.choose(2) == 1
        log = []
        tgt = stub_obj(it, 'target')
        tgt.methods = {'set_literal': lambda it, o: Stub(lambda it, a, k: log.append(a[0]))}
        p = stub_obj(it, 'path')
        u = stub_obj(it, 'usl')

        def deference(it, a, k):
            v.ensure('in the usl given', a[0] is u)
            if not ok:
                raise Raised(ExcVal(DeferenceError, ('no',)))
            return tgt
        p.methods = {'deference': lambda it, o: Stub(deference)}
        t = text(it, 't')
        r = v.call(it, usl_obj(it, Decoration, path=p, value=t), u)
        if ok:
            v.ensure('the component at the path gets the literal', zbool(it, it.eq(log[0], t)) if r.ok and len(log) == 1 else False)
        else:
            v.ensure('refused when there is nothing at the path', r.raises(DeferenceError) and not log)
    v.paths(path)


# ------------------------------------------------------------------ text

QUOTE, SLASH = '"', '\\'
ESC = SLASH + QUOTE


def replace_all(z, a, b):
    return z3.SeqRef(z3.Z3_mk_seq_replace_all(z.ctx_ref(), z.as_ast(), z3.StringVal(a).as_ast(), z3.StringVal(b).as_ast()), z.ctx)


@contract('P15', IN + 'Decoration.__str__', name='text of a decoration', timeout=20)
def dec_text(v):
    """the path, then the value between quotes with its quotes escaped; read back by the grammar as the same value"""
    from ieml.usl.parser.parser import IEMLParser
    acts = [f for f, left, right in productions(IEMLParser) if left == 'decoration' and
            right == ['LBRACKET', 'USL_PATH', 'DECORATION_VALUE', 'RBRACKET']]

    def path(it):
        p = it.fresh('path', PTX)
        t = text(it, 't')
        o = usl_obj(it, Decoration, path=p, value=t)
        r = v.call(it, o)
        if not v.ensure('no exception', r.ok):
            return
        esc = replace_all(t.z, QUOTE, ESC)
        v.ensure('[path "value"], with the quotes escaped', S_(r.value) == cat('[', PTX.z('_str', p.z), ' "', esc, '"]'))
        need(len(acts) == 1, 'production of a decoration')
        rec = Recorder(it)
        rec.stub(IN + 'Decoration', DECR, 'path, value')
        read = it.fresh('path read', PTX)
        pp = stub_obj(it, 'path parser')
        pp.methods = {'parse': lambda it, o: Stub(lambda it, a, k: (v.ensure(
            'the path is read from its text', zbool(it, it.eq(a[0], SStr(PTX.z('_str', p.z))))), read)[1])}
        it.ctx.contracts['ieml.usl.decoration.parser.parser:PathParser'] = lambda it, a, k: pp
        tok = SStr(cat('"', esc, '"'))
        ps = p_stub(it, ['[', SStr(PTX.z('_str', p.z)), tok, ']'])
        r = v.call_value(it, acts[0], stub_obj(it, 'parser', path_parser=pp), ps)
        m = rec.of(ps.vals[0]) if r.ok else None
        if not v.ensure('a decoration is read', m is not None):
            return
        v.ensure('at the path read', m[1]['path'].z == read.z)
        # by induction on the value, from the definition of replace on texts: c then the rest
        f = z3.Function('escaped', z3.StringSort(), z3.StringSort())
        g = z3.Function('unescaped', z3.StringSort(), z3.StringSort())
        v.ensure('the escapes of the value are removed', S_(m[1]['value']) == replace_all(esc, ESC, QUOTE))
        c, w, y = text(it, 'c').z, text(it, 'w').z, text(it, 'y').z
        it.ctx.assume(z3.And(z3.Length(c) == 1, c != SLASH))
        it.ctx.assume(f(z3.StringVal('')) == z3.StringVal(''))
        it.ctx.assume(g(z3.StringVal('')) == z3.StringVal(''))
        it.ctx.assume(f(z3.Concat(c, w)) == z3.Concat(z3.If(c == QUOTE, z3.StringVal(ESC), c), f(w)))
        for y in (f(w),):
            it.ctx.assume(g(z3.Concat(z3.StringVal(ESC), y)) == z3.Concat(z3.StringVal(QUOTE), g(y)))
            it.ctx.assume(z3.Implies(c != SLASH, g(z3.Concat(c, y)) == z3.Concat(c, g(y))))
        v.ensure('induction: the empty value', g(f(z3.StringVal(''))) == z3.StringVal(''))
        v.ensure('induction: one more character, not a backslash', z3.Implies(g(f(w)) == w, g(f(z3.Concat(c, w))) == z3.Concat(c, w)))
    v.paths(path)
    v.trust('str.replace of one character, or of a backslash and a quote, goes character by character')


PTX = ObjType('Path text', [UslPath], dict(_str=T.Str), key='_str')
PTX.methods['__str__'] = lambda it, o: Stub(lambda it, a, k: SStr(PTX.z('_str', o.z)))
DECR = ObjType('Decoration read', [Decoration], dict(k=T.Key), key='k')
DECR.methods['__eq__'] = key_eq(DECR)


@contract('P15', 'ieml.usl.parser.parser:IEMLParser.p_decoration_list', name='decorated usls are read')
def dec_grammar(v):
    from ieml.usl.parser.parser import IEMLParser
    prods = [p for p in productions(IEMLParser) if p[1] in ('decoration_list', 'instanced_usl')]
    got = {(left, tuple(right)) for _, left, right in prods}
    want = {('decoration_list', ('decoration_list', 'decoration')), ('decoration_list', ('decoration',)),
            ('instanced_usl', ('usl', 'decoration_list'))}
    if got != want:
        v.undecided('productions', 'other productions: %s' % (got ^ want))
        return

    def path(it):
        f, left, right = prods[it.ctx.choose(len(prods))]
        rec = Recorder(it)
        rec.stub(IN + 'InstancedUSL', INST, 'u, decorations')
        l = it.fresh('l', T.Seq(DECR))
        d, u = it.fresh('d', DECR), it.fresh('u', PTX)
        vals = [dict(decoration_list=VList(l.parts), decoration=d, usl=u)[s] for s in right]
        p = p_stub(it, vals)
        r = v.call_value(it, f, stub_obj(it, 'parser'), p)
        if not v.ensure('no exception', r.ok and p.is_set):
            return
        x = p.vals[0]
        if left == 'instanced_usl':
            m = rec.of(x)
            v.ensure('the usl with its decorations', z3.And(m[1]['u'].z == u.z, same_elems(it, m[1]['decorations'], l))
                     if m is not None else False)
        else:
            v.ensure('the decorations in order', same_elems(it, x, VList((l.parts if len(right) == 2 else []) + [one(d)])))
    v.paths(path)


INST = ObjType('Decorated usl', [InstancedUSL], dict(k=T.Key), key='k')

# ------------------------------------------------------------------ decorated usls

COMP = ObjType('Component', [PolyMorpheme], dict(k=T.Key), key='k')
COMP.attrs['_literal'] = T.Opt(T.Str)
CPAIR = ObjType('Path and component', [tuple], dict(k=T.Key), key='k')
CPAIR.attrs.update(path=T.Obj(PTX), item=T.Obj(COMP))
CPAIR.fields = ['path', 'item']
DECO = ObjType('Decoration made', [Decoration], dict(k=T.Key), key='k')
DECZ = z3.Function('decoration', Ref, z3.StringSort(), Ref)


@contract('P15', IN + 'InstancedUSL.list_decorations', name='the literals of a usl')
def list_decorations(v):
    """one decoration for each component which has a literal, at its path, and nothing else, in order"""
    v.trust('decorations are totally ordered by path and value')

    def path(it):
        it.ctx.contracts[IN + 'Decoration'] = lambda it, a, k: (lambda x: it.ref(DECZ(x['path'].z, S_(x['value'])), DECO))(bind(
            lambda path, value: 0, a, k))
        l = it.fresh('l', T.Seq(CPAIR))
        flex = it.ctx.choose(2) == 1
        u = stub_obj(it, 'usl')
        u.methods = {'iter_structure_path': lambda it, o: Stub(lambda it, a, k: (v.ensure(
            'its parts of the kind asked', bind(lambda flexion=False: 0, a, k)['flexion'] is flex), l)[1])}
        r = v.call(it, u, flex)
        if not v.ensure('no exception', r.ok):
            return
        g = it.to_seq(r.value)
        I = lambda i: CPAIR.z('item', at(l, i).z)
        lit = lambda i: COMP.z('_literal', I(i))
        has = lambda i: z3.And(i >= 0, i < l.parts[0].n, z3.Not(COMP.none('_literal', I(i))))
        D = lambda i: DECZ(CPAIR.z('path', at(l, i).z), lit(i))
        i, j = it.ctx.fresh('i', z3.IntSort()), z3.Int('bj')
        v.ensure('each literal is there, at its path', z3.Implies(has(i), some_element(it, g, lambda e: e.z == D(i))))
        v.ensure('nothing else', for_elements(it, g, lambda e: z3.Exists([j], z3.And(has(j), e.z == D(j)))))
        if len(g.parts) == 1 and g.parts[0].n is not None:
            lt = it.type_lt(DECO)
            a, b = z3.Ints('la lb')
            v.ensure('in order', z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < g.parts[0].n),
                                                              z3.Not(lt(at(g, b).z, at(g, a).z)))))
        else:
            v.undecided('in order', 'not the result of a sort')
    v.paths(path)


@contract('P15', IN + 'InstancedUSL.__init__', name='decorating a usl')
def instanced(v):
    """the decorations are applied in turn, listed, and every literal is removed at the end, also when one is refused"""
    def path(it):
        before = usl_obj(it, PolyMorpheme, _literal=None)
        c = context(it)
        u = usl_obj(it, PolyMorpheme, grammatical_class=1, _literal=None)
        n = it.ctx.choose(4)
        bad = it.ctx.choose(n + 1)          # number of the one which is refused (n: none)
        how = it.ctx.choose(2) if bad < n else 0
        comps, decs, log = [], [], []
        flexion = False
        for i in range(n):
            infl = it.ctx.choose(2) == 1
            flexion = flexion or infl
            x = usl_obj(it, PolyMorpheme, _literal=None)
            comps.append(x)
            t = text(it, 't%d' % i)
            d = usl_obj(it, Decoration, path=usl_obj(it, FlexionPath if infl else UslPath, child=None), value=t)

            def app(it, a, k, i=i, x=x, t=t):
                v.ensure('applied to the usl', a[0] is u)
                if i == bad:
                    raise Raised(ExcVal(DeferenceError, ('refused',)))
                log.append(i)
                it.call(it.getattr(x, 'set_literal'), [t], {})
            d.methods = {'apply': lambda it, o, app=app: Stub(app)}
            if i == bad and how:
                d = stub_obj(it, 'something else')
            decs.append(d)
        listed = it.fresh('listed', T.Seq(DECO))

        def listing(it, a, k):
            x = bind(lambda u, flexion=False: 0, a, k)
            v.ensure('listed once all are applied', x['u'] is u and log == list(range(n)) and
                     all(y.attrs['_literal'] is not None for y in comps))
            v.ensure('as inflections when one is', (x['flexion'] is True) == flexion)
            return listed
        it.ctx.contracts[IN + 'InstancedUSL.list_decorations'] = listing
        o = usl_obj(it, InstancedUSL)
        r = v.call(it, o, u, VList([one(d) for d in decs]))
        v.ensure('no literal remains', all(x.attrs['_literal'] is None for x in comps))
        v.ensure('the context is empty', len(it.to_seq(c.attrs['stack']).parts) == 0)
        if bad < n:
            v.ensure('refused', r.raises(ValueError if how else DeferenceError))
            return
        if v.ensure('no exception', r.ok):
            v.ensure('the usl given', o.attrs['usl'] is u and u.attrs['_literal'] is None)
            v.ensure('its class', it.eq(o.attrs['grammatical_class'], 1) is True)
            v.ensure('its decorations', same_elems(it, o.attrs['decorations'], listed))
    v.paths(path)


TEXTD = ObjType('Decoration text', [Decoration], dict(_text=T.Str), key='_text')


@contract('P15', IN + 'InstancedUSL.__str__', name='text of a decorated usl')
def inst_text(v):
    """the text of the usl, then the decorations (up to 3)"""
    def path(it):
        u = it.fresh('u', PTX)
        n = it.ctx.choose(4)
        ts = [text(it, 'd%d' % i) for i in range(n)]
        ds = []
        for t in ts:
            d = stub_obj(it, 'Decoration')
            d.methods = {'__str__': lambda it, o, t=t: Stub(lambda it, a, k: t)}
            ds.append(d)
        ut = PTX.z('_str', u.z)
        strip = z3.Function('str.strip', z3.StringSort(), z3.StringSort())
        r = v.call(it, usl_obj(it, InstancedUSL, usl=u, decorations=VList([one(d) for d in ds])))
        if not v.ensure('no exception', r.ok):
            return
        want = ut
        for t in ts:
            want = cat(want, ' ', t.z)
        # strip() of a text which does not start or end by a blank
        it.ctx.assume(strip(want) == want)
        it.ctx.assume(strip(cat(ut, ' ')) == ut)
        v.ensure('the usl, then its decorations, with blanks between', S_(r.value) == want)
    v.paths(path)


SSU = ObjType('Singular sequence', [PolyMorpheme], dict(k=T.Key), key='k')
PTC = ObjType('Path of a decoration', [UslPath], dict(k=T.Key), key='k')
HAS = z3.Function('has path', Ref, Ref, z3.BoolSort())


@contract('P15', IN + 'InstancedUSL._compute_singular_sequences', name='of the singular sequences')
def inst_ss(v):
    """each singular sequence, with the decorations whose path is in it, and itself when there is none (up to 3 decorations)"""
    def path(it):
        context(it)
        n = it.ctx.choose(4)
        ss = it.fresh('s', SSU)
        ds = []
        for i in range(n):
            pth = stub_obj(it, 'path')
            b = it.ctx.choose(2) == 1
            pth.methods = {'contained': lambda it, o, b=b: Stub(lambda it, a, k: (v.ensure(
                'looked up in the sequence', a[0].z == ss.z), b)[1])}
            ds.append((stub_obj(it, 'Decoration', path=pth), b))
        rec = Recorder(it)
        rec.stub(IN + 'InstancedUSL', INST, 'u, decorations')
        u = stub_obj(it, 'usl', singular_sequences=VList([one(ss)]))
        r = v.call(it, usl_obj(it, InstancedUSL, usl=u, decorations=VList([one(d) for d, _ in ds])))
        if not v.ensure('no exception', r.ok):
            return
        l = it.to_seq(r.value).items()
        if not v.ensure('one for each', len(l) == 1):
            return
        inn = [d for d, b in ds if b]
        if not inn:
            v.ensure('itself without decoration', isinstance(l[0], SRef) and l[0].z == ss.z)
            return
        m = rec.of(l[0])
        if v.ensure('decorated', m is not None):
            got = it.to_seq(m[1]['decorations']).items()
            v.ensure('of the sequence, with the decorations found in it', z3.And(
                m[1]['u'].z == ss.z, len(got) == len(inn) and all(any(x is y for y in got) for x in inn)))
    v.paths(path)


@contract('P15', 'ieml.usl.parser.lexer:get_lexer', name='tokens', timeout=30, total=300)
def tokens(v):
    """the values, whatever they hold but backslashes, and the paths are read as the tokens of the grammar"""
    from .lexing import reads, script_texts, chars, seq, ANYC
    from ieml.usl.parser.lexer import get_lexer
    lx = get_lexer()

    def path(it):
        other = z3.Intersect(z3.Complement(chars(QUOTE + SLASH)), ANYC)
        value = seq(z3.Re(QUOTE), z3.Star(z3.Union(z3.Re(ESC), other)), z3.Re(QUOTE))
        reads(v, lx, 'token', 'values', 'DECORATION_VALUE', value, ']', end=False, after=' ')
    v.paths(path)
    v.trust('a regular expression whose alternatives differ by their next character matches the longest text; PLY tries the '
            'rules in the order of its master expression')
