"""P18: the store of descriptors and structures. Files are replaced by their contract: open/read/write/remove, recorded in a
trace; a file of records is the sequence of its lines, each ended by a newline."""
from .uslcommon import *
from .p19 import recorder, events, JOIN, join, quiet
from .p15 import replace_all, cat, S_

DB = 'ieml.ieml_database.ieml_database:'
MOD = 'ieml.ieml_database.ieml_database'
DE = 'ieml.ieml_database.descriptors:'
DEMOD = 'ieml.ieml_database.descriptors'
IDB = DB + 'IEMLDatabase.'
STR = z3.StringSort()
CANON = z3.Function('text of the usl read', STR, STR)
ESC = z3.Function('escaped', STR, STR)
STRIP = z3.Function('str.strip', STR, STR)
PATH = z3.Function('path of', STR, z3.BoolSort(), z3.BoolSort(), STR)
BODY = z3.Function('line', z3.IntSort(), STR)
ENC = z3.Function('record', STR, STR, STR, STR, STR)
LANGS = ['fr', 'en']


# ------------------------------------------------------------------ keys

def from_constants():
    import ieml.constants as c
    return list(c.LANGUAGES), list(c.DESCRIPTORS_CLASS), list(c.STRUCTURE_KEYS), list(c.INHIBITABLE_RELATIONS)


@contract('P18', DE + 'normalize_key', name='keys')
def keys(v):
    """the USL as it is read, the language (or the key) and the kind as they are when they are known ones; refused otherwise, or
    when something is missing which has to be given"""
    langs, kinds, skeys, inhib = from_constants()

    def among(z, l):
        return z3.Or([z == z3.StringVal(x) for x in l])

    def setup(it):
        p = stub_obj(it, 'parser')

        def parse(it, a, k):
            o = stub_obj(it, 'usl')
            o.methods = {'__str__': lambda it, _: Stub(lambda it, _a, _k: SStr(CANON(zstr(a[0]))))}
            return o
        p.methods = {'parse': lambda it, o: Stub(parse)}
        it.ctx.contracts['ieml.usl.parser.parser:IEMLParser'] = lambda it, a, k: p
        it.globals[DEMOD, 'IEMLParser'] = Stub(lambda it, a, k: p)

    def path(it):
        setup(it)
        i = it.fresh('ieml', T.Str)
        it.ctx.assume(z3.Length(i.z) > 0)
        read, partial = bool(it.ctx.choose(2)), bool(it.ctx.choose(2))
        key = [None, '', it.fresh('language', T.Str)][it.ctx.choose(3)]
        kind = [None, '', it.fresh('kind', T.Str)][it.ctx.choose(3)]
        for x in (key, kind):
            if isinstance(x, SStr):
                it.ctx.assume(z3.Length(x.z) > 0)
        r = v.call(it, i, key, kind, parse_ieml=read, partial=partial, structure=False)
        good = z3.And([among(x.z, l) if isinstance(x, SStr) else z3.BoolVal(partial) for x, l in ((key, langs), (kind, kinds))])
        if not r.ok:
            v.ensure('refused with a ValueError', r.raises(ValueError))
            v.ensure('refused only for an unknown or missing language or kind', z3.Not(good))
            return
        v.ensure('accepted only a known language and kind', good)
        a, b, c = r.value
        v.ensure('the usl is the one read', zstr(a) == (CANON(i.z) if read else i.z))
        v.ensure('the language is the one given', b is None and key is None or zstr(b) == zstr(key) if key is not None else b is None)
        v.ensure('the kind is the one given', zstr(c) == zstr(kind) if kind is not None else c is None)
    v.paths(path, prefix='descriptors: ')

    def path(it):
        setup(it)
        i = it.fresh('ieml', T.Str)
        it.ctx.assume(z3.Length(i.z) > 0)
        read, partial = bool(it.ctx.choose(2)), bool(it.ctx.choose(2))
        key = [None, '', 'inhibition', it.fresh('key', T.Str)][it.ctx.choose(4)]
        value = [None, it.fresh('value', T.Str)][it.ctx.choose(2)]
        if isinstance(key, SStr):
            it.ctx.assume(z3.And(z3.Length(key.z) > 0, key.z != z3.StringVal('is_root'), key.z != z3.StringVal('is_ignored')))
        if isinstance(value, SStr):
            it.ctx.assume(z3.Length(value.z) > 0)
        r = v.call(it, i, key, value, parse_ieml=read, partial=partial, structure=True)
        given = key is not None and not isinstance(key, str) or key == 'inhibition'
        good = among(zstr(key), skeys) if given else z3.BoolVal(partial)
        if value is not None and given:
            good = z3.And(good, z3.Implies(zstr(key) == z3.StringVal('inhibition'), among(zstr(value), inhib)))
        if not r.ok:
            v.ensure('refused with a ValueError', r.raises(ValueError))
            v.ensure('refused only for an unknown or missing key, or an unknown inhibition', z3.Not(good))
            return
        v.ensure('accepted only a known key, and a known inhibition', good)
        a, b, c = r.value
        v.ensure('the usl is the one read', zstr(a) == (CANON(i.z) if read else i.z))
        v.ensure('the key is the one given', zstr(b) == zstr(key) if key is not None else b is None)
        v.ensure('the value is the one given', zstr(c) == zstr(value) if value is not None else c is None)
    v.paths(path, prefix='structure: ')

    def path(it):
        setup(it)
        i = it.fresh('ieml', T.Str)
        it.ctx.assume(z3.Length(i.z) > 0)
        key = ['is_root', 'is_ignored'][it.ctx.choose(2)]
        value = [True, 'True', 'true', 'TRUE', 'False', 'false', 'FALSE', '1', '0', 'null', '"a"', '[]', 'truth'][it.ctx.choose(13)]
        r = v.call(it, i, key, value, parse_ieml=True, partial=bool(it.ctx.choose(2)), structure=True)
        want = {'true': 'True', 'false': 'False'}.get(str(value).lower())
        if want is None:
            v.ensure('only booleans', r.raises(ValueError))
        else:
            v.ensure('written True or False', r.ok and r.value[1:] == (key, want))
    v.paths(path, prefix='flags (all the writings of booleans, and some others): ')


# ------------------------------------------------------------------ values

@contract('P18', IDB + 'escape_value', name='escape', timeout=20)
def escape(v):
    """characters are written one by one: a quote doubled, a newline as backslash n, any other as it is; so that a reader of
    quoted fields reads back the text, newlines excepted"""
    def path(it):
        o = HObj(v.resolve(IDB[:-1]), epoch=it.ctx.epoch)
        w = it.fresh('w', T.Str)
        r = v.call(it, o, w)
        if not v.ensure('no exception', r.ok):
            return
        need(per_character(zstr(r.value), w.z), 'something else than replacements of one character')
        c = it.fresh('c', T.Str)
        it.ctx.assume(z3.Length(c.z) == 1)
        r = v.call(it, o, c)
        b = zstr(r.value)
        v.ensure('a quote is doubled', z3.Implies(c.z == '"', b == '""'))
        v.ensure('a newline is written backslash n', z3.Implies(c.z == '\n', b == '\\n'))
        v.ensure('another character is kept', z3.Implies(z3.And(c.z != '"', c.z != '\n'), b == c.z))
        f, read = z3.Function('escaped', STR, STR), z3.Function('quoted field read', STR, STR)
        kept = z3.Function('with newlines as backslash n', STR, STR)
        x = it.fresh('x', T.Str).z
        e = z3.StringVal('')
        end = z3.StringVal('" ')
        it.ctx.assume(f(e) == e)
        it.ctx.assume(kept(e) == e)
        it.ctx.assume(f(z3.Concat(c.z, x)) == z3.Concat(b, f(x)))
        it.ctx.assume(kept(z3.Concat(c.z, x)) == z3.Concat(z3.If(c.z == '\n', z3.StringVal('\\n'), c.z), kept(x)))
        rest = z3.Concat(f(x), end)
        # the reader of quoted fields: two quotes are a quote, a quote alone ends the field, anything else is read as it is
        it.ctx.assume(read(end) == e)
        it.ctx.assume(read(z3.Concat(z3.StringVal('""'), rest)) == z3.Concat(z3.StringVal('"'), read(rest)))
        q = z3.String('q')
        for k in (1, 2):
            it.ctx.assume(z3.Implies(z3.And(z3.Length(b) == k, z3.Not(z3.Contains(b, z3.StringVal('"')))),
                                     read(z3.Concat(b, rest)) == z3.Concat(b, read(rest))))
        v.ensure('induction: the empty text', read(z3.Concat(f(e), end)) == kept(e))
        v.ensure('induction: one more character', z3.Implies(read(rest) == kept(x), read(z3.Concat(
            f(z3.Concat(c.z, x)), end)) == kept(z3.Concat(c.z, x))))
    v.paths(path)
    v.trust('str.replace of one character goes character by character')


def per_character(z, w):
    """z is made from w by replacements of single characters"""
    while not z.eq(w):
        if z.decl().name() not in ('str.replace_all', 'replace_all') and z.decl().kind() != z3.Z3_OP_SEQ_REPLACE_ALL:
            return False
        p = z.arg(1)
        if not z3.is_string_value(p) or len(p.as_string().encode().decode('unicode_escape')) != 1 and p.as_string() != '\\u{a}':
            return False
        z = z.arg(0)
    return True


@contract('P18', DB + '_normalize_value', name='values')
def values(v):
    def path(it):
        x = [it.fresh('x', T.Str), None, 12][it.ctx.choose(3)]
        r = v.call(it, x)
        if isinstance(x, SStr):
            v.ensure('the text, without the spaces around', r.ok and zstr(r.value) == STRIP(x.z))
        else:
            v.ensure('only texts', r.raises(ValueError))
    v.paths(path)


# ------------------------------------------------------------------ files
CUT = z3.Function('text with universal newlines', z3.StringSort(), z3.StringSort())


class Files:
    """open/os, by their contract; the lines of the file read are BODY(0..n-1), each followed by a newline"""

    def __init__(self, it, present=None, cr=False):
        self.it = it
        self.cr = cr          # a text of the file may have a carriage return
        self.handles = {}
        self.n = it.ctx.fresh('number of lines', z3.IntSort())
        j = z3.Int('lj')
        it.ctx.assume(self.n >= 0)
        it.ctx.assume(z3.ForAll([j], z3.Not(z3.Contains(BODY(j), z3.StringVal('\n'))), patterns=[BODY(j)]))
        quiet(it)
        it.globals[MOD, 'open'] = Stub(self.open)
        os = stub_obj(it, 'os', path=stub_obj(it, 'path'))
        os.attrs['path'].methods = {'isfile': lambda it, o: Stub(self.isfile), 'exists': lambda it, o: Stub(self.isfile),
                                    'join': lambda it, o: Stub(lambda it, a, k: join(a))}
        os.methods = {'remove': recorder(it, 'remove'), 'unlink': recorder(it, 'remove'), 'makedirs': recorder(it, 'makedirs')}
        it.globals[MOD, 'os'] = os
        self.there = present if present is not None else bool(it.ctx.choose(2))
        self.asked = []

    def isfile(self, it, a, k):
        self.asked.append(zstr(a[0]))
        return self.there

    def lines(self, newline):
        need(newline in (None, '', '\n'), 'newline %r' % newline)
        j = z3.Int(self.it.ctx.name('line'))
        # but with newline='\n', a carriage return is another end of line
        body = BODY(j) if newline == '\n' or not self.cr else z3.If(z3.Contains(BODY(j), z3.StringVal('\r')), CUT(BODY(j)), BODY(j))
        return VList([Part([j], z3.And(j >= 0, j < self.n), SStr(z3.Concat(body, z3.StringVal('\n'))), self.n)], epoch=self.it.ctx.epoch)

    def open(self, it, a, k):
        b = bind(lambda name, mode='r', buffering=-1, encoding=None, errors=None, newline=None: 0, a, k)
        h = stub_obj(it, 'file')
        self.handles[id(h)] = (h, zstr(b['name']), b['mode'])
        need(b['mode'] in ('r', 'w', 'a'), 'mode %s' % b['mode'])
        it.ctx.event('open', h, b['mode'], b['encoding'])
        if b['mode'] == 'r':
            h.methods = {'readlines': lambda it, o: Stub(lambda it, a, k: self.lines(b['newline'])), '__iter__': lambda it, o: Stub(lambda it, a, k: self.lines(b['newline']))}
        else:
            h.methods = {'write': lambda it, o: Stub(lambda it, a, k: it.ctx.event('write', h, VList([one(a[0])]))),
                         'writelines': lambda it, o: Stub(lambda it, a, k: it.ctx.event('write', h, it.to_seq(a[0])))}
        h.methods.update(__enter__=lambda it, o: Stub(lambda it, a, k: h), __exit__=lambda it, o: Stub(lambda it, a, k: None),
                         close=lambda it, o: Stub(lambda it, a, k: None))
        return h

    def opened(self, *modes):
        return [(k, self.handles[id(e[1])]) for k, _, e in events(self.it, 'open') if e[2] in modes]

    def written(self):
        """the pieces written, in order"""
        out = []
        for _, p, e in events(self.it, 'write'):
            l = VList(e[2].parts)
            if p.vars:
                need(len(l.parts) == 1 and not l.parts[0].vars and z3.is_true(l.parts[0].guard), 'several writes in a loop')
                out.append(Part(p.vars, p.guard, l.parts[0].value, p.n))
            else:
                need(z3.is_true(p.guard), 'conditional write')
                out += l.parts
        return VList(out)


def database(it, v, normalized=True):
    o = HObj(v.resolve(IDB[:-1]), epoch=it.ctx.epoch)
    o.attrs.update(folder='/db', cache_folder='/db', use_cache=True)
    canon = lambda x: x

    def norm(it, a, k):
        b = bind(lambda ieml, key, value, parse_ieml=False, partial=False, structure=False: 0, a, k)
        it.ctx.event('normalize', b['parse_ieml'], b['partial'], b['structure'])
        if it.ctx.choose(2):
            raise Raised(ExcVal(ValueError, ('refused',)))
        need(b['parse_ieml'], 'the text of the usl is not read')
        return SStr(CANON(zstr(b['ieml']))), b['key'], b['value']
    it.ctx.contracts[DE + 'normalize_key'] = norm
    it.ctx.contracts[IDB + 'escape_value'] = lambda it, a, k: SStr(ESC(zstr(a[-1])))

    def path_of(it, a, k):
        b = bind(lambda self, _ieml, descriptor=True, mkdir=False, normalize=True: 0, a, k)
        if b['mkdir']:
            it.ctx.event('folder', b['descriptor'])
        need(isinstance(b['descriptor'], bool) and isinstance(b['normalize'], bool), 'flags')
        return SStr(PATH(zstr(b['_ieml']), z3.BoolVal(b['descriptor']), z3.BoolVal(b['normalize'])))
    it.ctx.contracts[IDB + 'path_of'] = path_of
    return o


def canon_facts(it, i):
    """the text of a USL reads as itself (P09); the name of the file of a text as USLs are written is the same, normalized or not"""
    c = CANON(i)
    it.ctx.assume(CANON(c) == c)
    for d in (True, False):
        it.ctx.assume(PATH(c, z3.BoolVal(d), z3.BoolVal(True)) == PATH(c, z3.BoolVal(d), z3.BoolVal(False)))
    return c


def joined(l):
    """one text, of pieces written one after the other"""
    need(l.concrete, 'written in a loop')
    zs = [zstr(x) for x in l.items()]
    return z3.StringVal('') if not zs else zs[0] if len(zs) == 1 else z3.Concat(zs)


def record(*parts):
    return z3.Concat([z3.StringVal(p) if isinstance(p, str) else p for p in parts])


@contract('P18', IDB + 'add_descriptor', name='adding a descriptor')
def add(v):
    def path(it):
        fs = Files(it)
        o = database(it, v)
        i, l, d, x = (it.fresh(n, T.Str) for n in ('ieml', 'language', 'kind', 'value'))
        c = canon_facts(it, i.z)
        it.ctx.contracts[DB + '_normalize_value'] = lambda it, a, k: SStr(STRIP(zstr(a[0])))
        r = v.call(it, o, i, l, d, x)
        out = fs.opened('r', 'w', 'a')
        if not r.ok:
            v.ensure('only a refused key fails', r.raises(ValueError) and bool(events(it, 'normalize')))
            v.ensure('nothing is written then', not out and not events(it, 'remove'))
            return
        n = events(it, 'normalize')
        v.ensure('the usl, the language and the kind are checked, none may be missing', len(n) >= 1 and n[0][2][1:] == (True, False, False))
        v.ensure('nothing is removed', not events(it, 'remove'))
        if not out:
            v.ensure('only blank values are ignored', STRIP(x.z) == '')
            return
        v.ensure('blank values are ignored', STRIP(x.z) != '')
        if not v.ensure('one file is appended to', len(out) == 1 and out[0][1][2] == 'a'):
            return
        v.ensure('the file of the descriptors of the usl', out[0][1][1] == PATH(c, z3.BoolVal(True), z3.BoolVal(True)))
        v.ensure('whose folder is made', [e[1] for _, _, e in events(it, 'folder')] == [True])
        v.ensure('one record is added', joined(fs.written()) == record('"', ESC(c), '" ', l.z, ' ', d.z, ' "', ESC(STRIP(x.z)), '"\n'))
        v.ensure('in utf8', all(str(e[3]).lower().replace('-', '') == 'utf8' for _, _, e in events(it, 'open')))
    v.declare('one record is added', 'only blank values are ignored')
    v.assume_note('P09: the text of a USL reads as itself')
    v.paths(path)


@contract('P18', IDB + 'add_structure', name='adding a structure')
def add_structure(v):
    def path(it):
        fs = Files(it)
        o = database(it, v)
        i, k, x = (it.fresh(n, T.Str) for n in ('ieml', 'key', 'value'))
        c = canon_facts(it, i.z)
        r = v.call(it, o, i, k, x)
        out = fs.opened('r', 'w', 'a')
        if not r.ok:
            v.ensure('only a refused key fails', r.raises(ValueError) and bool(events(it, 'normalize')))
            v.ensure('nothing is written then', not out and not events(it, 'remove'))
            return
        n = events(it, 'normalize')
        v.ensure('the usl, the key and the value are checked, none may be missing', len(n) >= 1 and n[0][2][1:] == (True, False, True))
        v.ensure('nothing is removed', not events(it, 'remove'))
        if not v.ensure('one file is appended to', len(out) == 1 and out[0][1][2] == 'a'):
            return
        v.ensure('the file of the structure of the usl', out[0][1][1] == PATH(c, z3.BoolVal(False), z3.BoolVal(True)))
        v.ensure('whose folder is made', [e[1] for _, _, e in events(it, 'folder')] == [False])
        v.ensure('one record is added', joined(fs.written()) == record('"', c, '" ', k.z, ' "', x.z, '"\n'))
        v.ensure('in utf8', all(str(e[3]).lower().replace('-', '') == 'utf8' for _, _, e in events(it, 'open')))
    v.declare('one record is added')
    v.paths(path)


def check_removal(v, it, fs, removed, what):
    """the file is rewritten with its lines which are not removed, in order"""
    ws = events(it, 'write')
    rd, wr = fs.opened('r'), fs.opened('w', 'a')
    if not wr:
        j = z3.Int('kj')
        v.ensure('not rewritten only when nothing is removed', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < fs.n), z3.Not(removed(BODY(j))))))
        return
    if not v.ensure('read then rewritten', len(rd) == 1 and len(wr) == 1 and wr[0][1][2] == 'w' and rd[0][0] < wr[0][0]):
        return
    v.ensure('the same file', z3.And(rd[0][1][1] == what, wr[0][1][1] == what))
    l = fs.written()
    need(len(l.parts) == 1 and len(l.parts[0].vars) == 1, 'lines kept in a way which is not followed')
    p = l.parts[0]
    j = p.vars[0]
    inside = z3.And(j >= 0, j < fs.n)
    v.ensure('only lines of the file are written, in order', z3.ForAll([j], z3.Implies(p.guard, z3.And(inside, zstr(p.value) == z3.Concat(BODY(j), z3.StringVal('\n'))))))
    v.ensure('what is asked is removed', z3.ForAll([j], z3.Implies(z3.And(p.guard, inside), z3.Not(removed(BODY(j))))))
    v.ensure('nothing else is', z3.ForAll([j], z3.Implies(z3.And(inside, z3.Not(removed(BODY(j)))), p.guard)))


@contract('P18', IDB + 'remove_descriptor', name='removing descriptors', timeout=20)
def remove(v):
    langs, kinds, _, _ = from_constants()

    def path(it):
        fs = Files(it, cr=True)
        o = database(it, v)
        i = it.fresh('ieml', T.Str)
        c = canon_facts(it, i.z)
        l = it.fresh('language', T.Str) if it.ctx.choose(2) else None
        d = it.fresh('kind', T.Str) if it.ctx.choose(2) else None
        x = it.fresh('value', T.Str) if it.ctx.choose(2) else None
        normalize = bool(it.ctx.choose(2))
        strip = lambda z: STRIP(z)
        it.ctx.contracts[DB + '_normalize_value'] = lambda it, a, k: SStr(STRIP(zstr(a[0])))
        if x is not None:
            it.ctx.assume(STRIP(x.z) != '')
            it.ctx.assume(x.z != '')
        calls = []

        def again(it, a, k):
            b = bind(lambda self, ieml, language=None, descriptor=None, value=None, normalize=True: 0, a, k)
            calls.append(tuple(b.values())[1:])
            it.ctx.event('again')
        f = it.ifunc(inner(v.resolve()))
        it.ctx.contracts[IDB + 'remove_descriptor'] = again
        what = PATH(c, z3.BoolVal(True), z3.BoolVal(normalize))
        r = call_inner(v, it, f, o, i, l, d, x, normalize)
        out = fs.opened('r', 'w', 'a')
        rm = events(it, 'remove')
        if not r.ok:
            v.ensure('only a refused key fails', r.raises(ValueError))
            v.ensure('nothing is written then', not out and not rm)
            return
        v.ensure('of the file of the descriptors of the usl', z3.And([a == what for a in fs.asked]) if fs.asked else True)
        if not fs.there:
            v.ensure('nothing to do without the file', not out and not rm)
            return
        if l is None and d is None and x is None:
            v.ensure('the whole file is removed', len(rm) == 1 and not out and zstr(rm[0][2][1]) == what)
            return
        v.ensure('no file is removed', not rm)
        if l is None or d is None:
            wanted = [(a, b) for a in ([l] if l is not None else langs) for b in ([d] if d is not None else kinds + [None])]
            ok = lambda e: same_text(e[0], SStr(c)) and (e[3] is x or x is not None and zstr(e[3]).eq(STRIP(x.z)))
            need(all(ok(e) for e in calls), 'removal of one kind')
            got = [(e[1], e[2]) for e in calls]
            full = [(a, b) for a in ([l] if l is not None else langs) for b in ([d] if d is not None else kinds)]
            v.ensure('every language or kind which is not told', all(any(a is g[0] or g[0] is None or a == g[0] for g in got if (
                b is g[1] or g[1] is None or b == g[1])) for a, b in full) and not out)
            v.ensure('and only those told', all((l is None or a is l) and (d is None or b is d) for a, b in got))
            return
        v.ensure('by its own', not calls)
        pre = record('"', ESC(c), '" ', l.z, ' ', d.z, ' ')
        if x is None:
            removed = lambda b: z3.PrefixOf(pre, z3.Concat(b, z3.StringVal('\n')))
        else:
            removed = lambda b: b == z3.Concat(pre, z3.StringVal('"'), ESC(STRIP(x.z)), z3.StringVal('"'))
        check_removal(v, it, fs, removed, what)
    v.declare('nothing else is', 'what is asked is removed', 'the whole file is removed', 'and only those told')
    v.paths(path)


def inner(f):
    """the function which monitor_decorator wraps (its wrapper, which prints the time, is run too when it is called)"""
    while '.<locals>.' in f.__qualname__ and f.__closure__:
        cells = dict(zip(f.__code__.co_freevars, (c.cell_contents for c in f.__closure__)))
        fs = [c for c in cells.values() if inspect.isfunction(c)]
        need(len(fs) == 1, 'decorator')
        f = fs[0]
    return f


def call_inner(v, it, f, *args):
    from pyvc.verify import Outcome
    it.ctx.used.add(f.key)
    try:
        return Outcome(value=it.call_ifunc(f, list(args), {}))
    except Raised as r:
        return Outcome(exc=r.exc)


def same_text(a, b):
    return z3.simplify(zstr(a)).eq(z3.simplify(zstr(b))) or z3.simplify(zstr(a)).eq(z3.simplify(CANON(zstr(b))))


I_, K_, V_ = (z3.Function(n, z3.IntSort(), STR) for n in ('usl of', 'key of', 'value of'))


@contract('P18', IDB + 'remove_structure', name='removing a structure', timeout=20, z3_first=2)
def remove_structure(v):
    def path(it):
        fs = Files(it)
        o = database(it, v)
        i = it.fresh('ieml', T.Str)
        c = canon_facts(it, i.z)
        k = it.fresh('key', T.Str) if it.ctx.choose(2) else None
        x = it.fresh('value', T.Str) if it.ctx.choose(2) else None
        normalize = bool(it.ctx.choose(2))
        if k is None:
            x = None
        if x is not None:
            it.ctx.assume(x.z != '')
        # the lines are records, as add_structure writes them: texts of USLs, keys and values have no quote, keys no space
        j = z3.Int('rj')
        Q, SP = z3.StringVal('"'), z3.StringVal(' ')
        it.ctx.assume(z3.ForAll([j], BODY(j) == record('"', I_(j), '" ', K_(j), ' "', V_(j), '"'), patterns=[BODY(j)]))
        what = PATH(c, z3.BoolVal(False), z3.BoolVal(normalize))
        r = v.call(it, o, i, k, x, normalize)
        out = fs.opened('r', 'w', 'a')
        rm = events(it, 'remove')
        if not r.ok:
            v.ensure('only a refused key fails', r.raises(ValueError))
            v.ensure('nothing is written then', not out and not rm)
            return
        v.ensure('of the file of the structure of the usl', z3.And([a == what for a in fs.asked]) if fs.asked else True)
        if not fs.there:
            v.ensure('nothing to do without the file', not out and not rm)
            return
        if k is None:
            v.ensure('the whole file is removed', len(rm) == 1 and not out and zstr(rm[0][2][1]) == what)
            return
        v.ensure('no file is removed', not rm)
        pre = record('"', c, '" ', k.z, ' ')
        if x is None:
            removed = lambda b: z3.PrefixOf(pre, z3.Concat(b, z3.StringVal('\n')))
        else:
            removed = lambda b: z3.PrefixOf(z3.Concat(pre, Q, x.z, Q), z3.Concat(b, z3.StringVal('\n')))
        check_removal(v, it, fs, removed, what)
    v.declare('nothing else is', 'what is asked is removed', 'the whole file is removed')
    v.paths(path)

    def lemma(it):
        """the lines which are removed are the records of this usl and key, and of this value when it is given"""
        s = lambda n: it.fresh(n, T.Str).z
        i, k, x, i2, k2, x2 = (s(n) for n in ('i', 'k', 'x', 'i2', 'k2', 'x2'))
        Q, SP = z3.StringVal('"'), z3.StringVal(' ')
        for z in (i, k, x, i2, k2, x2):
            it.ctx.assume(z3.Not(z3.Contains(z, Q)))
        for z in (k, k2):
            it.ctx.assume(z3.Not(z3.Contains(z, SP)))
        line = record('"', i2, '" ', k2, ' "', x2, '"\n')
        v.ensure('same usl', z3.Implies(z3.PrefixOf(record('"', i, '" '), line), i == i2))
        v.ensure('same key', z3.Implies(z3.PrefixOf(record(k, ' '), record(k2, ' "', x2, '"\n')), k == k2))
        v.ensure('same value', z3.Implies(z3.PrefixOf(record('"', x, '"'), record('"', x2, '"\n')), x == x2))
    v.paths(lemma, prefix='records are told apart: ')
    v.assume_note('the texts of USLs with a structure, keys and values hold no quote; keys and values no space')


# ------------------------------------------------------------------ names of the files

SHA = z3.Function('sha224', STR, STR)


def sha(it):
    def f(it, a, k):
        h = stub_obj(it, 'hash')
        need(isinstance(a[0], SKey) and a[0].z.decl().name() == 'encode', 'hash of something else than a text')
        h.methods = {'hexdigest': lambda it, o: Stub(lambda it, b, k: SStr(SHA(a[0].z.arg(0))))}
        it.ctx.assume(z3.Length(SHA(a[0].z.arg(0))) == 56)
        return h
    it.globals[MOD, 'sha224'] = Stub(f)


@contract('P18', IDB + 'filename_of', name='names of files', timeout=20, z3_first=2)
def filename(v):
    """two texts have the same name only if they are the same, or long with the same hash"""
    def path(it):
        sha(it)
        o = HObj(v.resolve(IDB[:-1]), epoch=it.ctx.epoch)
        a, b = it.fresh('a', T.Str), it.fresh('b', T.Str)
        bar = z3.StringVal('|')
        for z in (a.z, b.z):      # | is not a character of the texts of USLs
            it.ctx.assume(z3.Not(z3.Contains(z, bar)))
        r, s = v.call(it, o, a), v.call(it, o, b)
        if not v.ensure('no exception', r.ok and s.ok):
            return
        x, y = zstr(r.value), zstr(s.value)
        v.ensure('not too long for a file system', z3.Length(x) <= 200)
        v.ensure('names tell texts apart, up to collisions of the hash', z3.Implies(z3.And(x == y, a.z != b.z), z3.And(
            z3.Length(a.z) > 50, z3.Length(b.z) > 50, z3.SubString(SHA(a.z), z3.IntVal(0), z3.IntVal(10)) == z3.SubString(SHA(b.z), z3.IntVal(0), z3.IntVal(10)))))
    v.trust('sha224: no collision of the first ten digits between two USLs of the same database')
    v.paths(path)


NAME = z3.Function('name of the file of', STR, STR)


@contract('P18', IDB + 'path_of', name='files')
def path_of(v):
    """folder/type/singular or paradigm/prefix of the name/name.desc or .ieml, of the USL, or of the one which is decorated"""
    from ieml.usl.decoration.instance import InstancedUSL
    from ieml.dictionary.script import Script
    folders = {NullScript: 'morpheme', AdditiveScript: 'morpheme', MultiplicativeScript: 'morpheme', PolyMorpheme: 'polymorpheme',
               Lexeme: 'lexeme', Word: 'word'}

    def path(it):
        fs = Files(it, True)
        cls = list(folders)[it.ctx.choose(len(folders))]
        text, n = it.fresh('text', T.Str), it.fresh('cardinal', T.Int)
        it.ctx.assume(n.z >= 1)
        u = HObj(cls, epoch=it.ctx.epoch)
        u.methods = {'__len__': lambda it, o: Stub(lambda it, a, k: n), '__str__': lambda it, o: Stub(lambda it, a, k: text)}
        if issubclass(cls, Script) or cls in (PolyMorpheme, Lexeme, Word):
            if it.ctx.choose(2):
                w = HObj(InstancedUSL, epoch=it.ctx.epoch)
                w.attrs.update(usl=u)
                w.methods = dict(u.methods)
                u = w
        o = HObj(v.resolve(IDB[:-1]), epoch=it.ctx.epoch)
        folder = it.fresh('folder', T.Str)
        o.attrs.update(folder=folder)

        def name(it, a, k):
            x = a[-1]
            return SStr(NAME(zstr(x) if isinstance(x, (str, SStr)) else text.z))
        it.ctx.contracts[IDB + 'filename_of'] = name
        given = it.fresh('given', T.Str)
        p = stub_obj(it, 'parser')
        p.methods = {'parse': lambda it, o: Stub(lambda it, a, k: (v.ensure('the text is read', zstr(a[0]) == given.z), u)[1])}
        it.globals[MOD, 'IEMLParser'] = Stub(lambda it, a, k: p)
        as_text, desc, mkdir, normalize = (bool(it.ctx.choose(2)) for _ in range(4))
        if desc and not mkdir and normalize:
            r = v.call(it, o, given if as_text else u)
        else:
            r = v.call(it, o, given if as_text else u, descriptor=desc, mkdir=mkdir, normalize=normalize)
        if not v.ensure('no exception', r.ok):
            return
        nm = NAME(given.z if as_text and not normalize else text.z)
        size = {'morpheme': 0, 'polymorpheme': 5, 'lexeme': 8, 'word': 10}[folders[cls]]
        pre = z3.SubString(nm, z3.IntVal(0), z3.IntVal(size))
        sub = z3.If(n.z == 1, z3.StringVal('singular'), z3.StringVal('paradigm'))
        where = zstr(join([folder, folders[cls], SStr(sub), SStr(pre)]))
        v.ensure('the file', zstr(r.value) == JOIN(where, z3.Concat(nm, z3.StringVal('.desc' if desc else '.ieml'))))
        made = events(it, 'makedirs')
        v.ensure('even when it is there', all(e[2][2:] == (True,) or len(e[2]) > 3 for e in made))
        v.ensure('the folder is made when asked', len(made) == 1 and zstr(made[0][2][1]) == where if mkdir else not made)
    v.paths(path)
