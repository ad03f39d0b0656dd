"""P21: caches over watched files."""
from .uslcommon import *
from .p19 import recorder, events, JOIN, join

CM = 'ieml.commons:'
MOD = 'ieml.commons'
FW = CM + 'FolderWatcherCache.'


def quiet(it):
    log = stub_obj(it, 'logger')
    log.methods = {n: (lambda it, o: Stub(lambda it, a, k: None)) for n in ('info', 'debug', 'warning', 'error')}
    it.globals[MOD, 'logger'] = log
    ft = stub_obj(it, 'functools')
    ft.methods = {'wraps': lambda it, o: Stub(lambda it, a, k: Stub(lambda it, a, k: a[0]))}
    it.globals[MOD, 'functools'] = ft
    it.globals[MOD, 'print'] = Stub(lambda it, a, k: None)


@contract('P21', CM + 'cache_results_watch_files', name='cached function')
def cached(v):
    """the cached value is given only when the cache is used and not pruned; otherwise the function is called, its value given
    and stored over the files as they are then"""
    def path(it):
        quiet(it)
        fresh = it.fresh('pruned', T.Bool)
        stored, value = stub_obj(it, 'stored'), stub_obj(it, 'value')
        full = it.ctx.choose(2)          # the stored value may be falsy, or None
        stored.methods = {'__bool__': lambda it, o: Stub(lambda it, a, k: bool(full))}
        caches = []

        def cache(it, a, k):
            b = bind(lambda db_path, pattern, cache_folder, name: 0, a, k)
            o = stub_obj(it, 'cache', cache_file='file')
            caches.append(tuple(b.values()))

            def get(it, a, k):
                it.ctx.event('get')
                if it.ctx.choose(2):
                    raise Raised(ExcVal(OSError, ('unreadable',)))
                return stored
            o.methods = {'is_pruned': lambda it, o: Stub(lambda it, a, k: fresh), 'get': lambda it, o: Stub(get),
                         'update': recorder(it, 'update')}
            return o
        it.globals[MOD, 'FolderWatcherCache'] = Stub(cache)

        def body(it, a, k):
            it.ctx.event('called', *a, *k.items())
            if it.ctx.choose(2):
                raise Raised(ExcVal(ValueError, ('refused',)))
            return value
        use = bool(it.ctx.choose(2))
        me = stub_obj(it, 'database', use_cache=use, cache_folder='/cache' if use else None, folder='/db')
        deco = v.call(it, 'pattern', 'name').value
        f = v.call_value(it, deco, Stub(body)).value
        r = v.call_value(it, f, me, 1, x=2)
        calls, ups = events(it, 'called'), events(it, 'update')
        v.ensure('the watched files are those asked', all(c == ('/db', 'pattern', '/cache', 'name') for c in caches))
        if not r.ok:
            v.ensure('only the function fails', r.raises(ValueError) and len(calls) == 1)
            v.ensure('nothing is stored then', not ups)
            return
        if r.value is stored:
            v.ensure('the stored value only when it is current', z3.And(use, z3.Not(fresh.z)))
            v.ensure('and nothing is stored', not ups)
            return
        v.ensure('else what the function gives', r.value is value)
        v.ensure('called once, with the same arguments', len(calls) == 1 and calls[0][2][1:] == (me, 1, ('x', 2)))
        v.ensure('and stored when the cache is used', (len(ups) == 1 and ups[0][2][1] is value and ups[0][0] > calls[0][0]) if use else not ups)
    v.declare('the stored value only when it is current', 'else what the function gives')
    v.paths(path)


@contract('P21', FW + 'is_pruned', name='current or not')
def pruned(v):
    """current iff the only cache file is the one of the present content"""
    def path(it):
        names = it.fresh('names', T.Seq(T.Str))
        cur = it.fresh('current', T.Str)
        it.ctx.contracts[FW + '_cache_candidates'] = lambda it, a, k: names
        it.ctx.contracts[FW + 'cache_file'] = lambda it, a, k: cur
        o = HObj(v.resolve(FW[:-1]), epoch=it.ctx.epoch)
        r = v.call(it, o)
        if not v.ensure('no exception', r.ok):
            return
        n = names.parts[0].n
        v.ensure('not pruned only when the cache file is that of the content', z3.Implies(
            z3.Not(zbool(it, r.value)), z3.Exists([z3.Int('k')], z3.And(z3.Int('k') >= 0, z3.Int('k') < n, names.at(z3.Int('k')) == cur.z))))
        v.ensure('not pruned when it is the only one', z3.Implies(z3.And(n == 1, names.at(z3.IntVal(0)) == cur.z), z3.Not(zbool(it, r.value))))
    v.paths(path)


@contract('P21', FW + '_cache_candidates', name='cache files')
def candidates(v):
    def path(it):
        l = it.fresh('names', T.Seq(T.Str))
        os = stub_obj(it, 'os', path=stub_obj(it, 'path'))
        os.attrs['path'].methods = {'join': lambda it, o: Stub(lambda it, a, k: join(a))}
        os.methods = {'listdir': lambda it, o: Stub(lambda it, a, k: l)}
        it.globals[MOD, 'os'] = os
        o = HObj(v.resolve(FW[:-1]), epoch=it.ctx.epoch)
        name, folder = it.fresh('name', T.Str), it.fresh('folder', T.Str)
        o.attrs.update(name=name, cache_folder=folder)
        r = v.call(it, o)
        if not v.ensure('no exception', r.ok):
            return
        j = z3.Int('cj')
        pre = z3.Concat(z3.StringVal('.'), name.z, z3.StringVal('-cache.'))
        ok = z3.And(j >= 0, j < l.parts[0].n, z3.PrefixOf(pre, l.at(j)))
        res = it.to_seq(r.value)
        full = JOIN(folder.z, l.at(j))
        v.ensure('every file of the cache of this name', z3.ForAll([j], z3.Implies(ok, some_element(it, res, lambda e: zstr(e) == full))))
        v.ensure('and no other', for_elements(it, res, lambda e: z3.Exists([j], z3.And(ok, zstr(e) == full))))
    v.paths(path)


def files(it, handles):
    """open(name, mode), by its contract"""
    def open_(it, a, k):
        h = stub_obj(it, 'file')
        it.ctx.event('open', *a, *k.values())
        handles.append((h, a[0]))
        h.methods = {'__enter__': lambda it, o: Stub(lambda it, a, k: h), '__exit__': lambda it, o: Stub(lambda it, a, k: it.ctx.event('close', h)),
                     'read': lambda it, o: Stub(lambda it, a, k: SStr(CONTENT(handles_name(handles, h)))),
                     'close': lambda it, o: Stub(lambda it, a, k: it.ctx.event('close', h)),
                     'write': lambda it, o: Stub(lambda it, a, k: it.ctx.event('write', h, a[0]))}
        return h
    it.globals[MOD, 'open'] = Stub(open_)


CONTENT = z3.Function('content of a file', z3.StringSort(), z3.StringSort())


def handles_name(handles, h):
    return [zstr(n) for x, n in handles if x is h][0]


@contract('P21', FW + 'update', name='storing')
def update(v):
    """all the previous cache files are removed, and the value is written in the one of the present content"""
    def path(it):
        names = it.fresh('names', T.Seq(T.Str))
        cur = it.fresh('current', T.Str)
        it.ctx.contracts[FW + '_cache_candidates'] = lambda it, a, k: names
        it.ctx.contracts[FW + 'cache_file'] = lambda it, a, k: cur
        handles = []
        files(it, handles)
        os = stub_obj(it, 'os')
        os.methods = {'remove': recorder(it, 'remove'), 'unlink': recorder(it, 'remove')}
        it.globals[MOD, 'os'] = os
        pick = stub_obj(it, 'pickle')
        pick.methods = {'dump': lambda it, o: Stub(lambda it, a, k: it.ctx.event('dump', a[0], a[1]))}
        it.globals[MOD, 'pickle'] = pick
        o = HObj(v.resolve(FW[:-1]), epoch=it.ctx.epoch)
        val = stub_obj(it, 'value')
        r = v.call(it, o, val)
        if not v.ensure('no exception', r.ok):
            return
        rm, op, du = events(it, 'remove'), events(it, 'open'), events(it, 'dump')
        if not v.ensure('one value is written', len(op) == 1 and len(du) == 1 and len(handles) == 1 and du[0][2][1] is val and
                        du[0][2][2] is handles[0][0] and op[0][2][2] == 'wb'):
            return
        v.ensure('in the file of the present content', zstr(handles[0][1]) == cur.z)
        v.ensure('after the others are removed', all(i < op[0][0] for i, _, _ in rm))
        j = z3.Int('cj')
        ok = z3.And(j >= 0, j < names.parts[0].n)
        out = VList([Part(p.vars, p.guard, e[1]) for _, p, e in rm])
        v.ensure('every previous cache file is removed', z3.ForAll([j], z3.Implies(z3.And(ok, names.at(j) != cur.z), some_element(
            it, out, lambda e: zstr(e) == names.at(j)))))
        v.ensure('nothing else is', for_elements(it, out, lambda e: z3.Exists([j], z3.And(ok, zstr(e) == names.at(j)))))
    v.paths(path)


# ------------------------------------------------------------------ the name of a cache tells the contents apart

STR = z3.StringSort()
REL = z3.Function('name in the folder', z3.IntSort(), STR)
HASH = z3.Function('hash', STR, STR)


def flat(e):
    return [y for x in e.children() for y in flat(x)] if e.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [e]


def simpler(e, known):
    """the term, where each part of a text which is provably one of the known texts is that text"""
    todo, subs, seen = [e], [], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_string(t) and t.decl().kind() in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_ITE):
            for k in known:
                s = z3.Solver()
                s.set('timeout', 2000)
                s.add(t != k)
                if s.check() == z3.unsat:
                    subs.append((t, k))
                    break
            else:
                todo += t.children()
        else:
            todo += t.children()
    return z3.simplify(z3.substitute(e, *subs)) if subs else e


def cat(l):
    return z3.StringVal('') if not l else l[0] if len(l) == 1 else z3.Concat(l)


def decode(it, v, a, b):
    """a, b: the pieces of two texts which are equal. Reads them from the left: the same literal, a number and the literal which
    ends it, a piece whose length is known; each step is a lemma on any texts. -> is nothing left to read"""
    done = set()

    def generic(name, hyps, goal, sub):
        it.ctx.assume(z3.substitute(z3.Implies(z3.And(hyps), goal), *sub)) if v.ensure(name, z3.Implies(z3.And(hyps), goal)) or name in done \
            else need(False, 'lemma')
        done.add(name)
    c = lambda n: it.ctx.fresh(n, STR)
    while len(a) > 1:
        p, q, r, s = a[0], b[0], cat(a[1:]), cat(b[1:])
        if z3.is_string_value(p) and p.eq(q):
            x, y, t = c('x'), c('y'), c('t')
            generic('a literal is skipped', [z3.Concat(t, x) == z3.Concat(t, y)], x == y, [(t, p), (x, r), (y, s)])
            a, b = a[1:], b[1:]
        elif p.decl().kind() == z3.Z3_OP_INT_TO_STR and z3.is_string_value(a[1]) and a[1].eq(b[1]) and not a[1].as_string()[0].isdigit():
            x, y, u, w, i = c('x'), c('y'), c('u'), c('w'), it.ctx.fresh('i', z3.IntSort())
            d = z3.StringVal(a[1].as_string()[0])
            rest = z3.StringVal(a[1].as_string()[1:])
            generic('a number has no %s' % d, [i >= 0], z3.Not(z3.Contains(z3.IntToStr(i), d)), [(i, p.arg(0))])
            it.ctx.assume(z3.Implies(q.arg(0) >= 0, z3.Not(z3.Contains(q, d))))
            generic('a number is read up to %s' % d, [z3.Not(z3.Contains(x, d)), z3.Not(z3.Contains(y, d)),
                                                     z3.Concat(x, d, u) == z3.Concat(y, d, w)], z3.And(x == y, u == w),
                    [(x, p), (y, q), (u, cat([rest][:len(a[1].as_string()) - 1] + a[2:])), (w, cat([rest][:len(a[1].as_string()) - 1] + b[2:]))])
            j = it.ctx.fresh('j', z3.IntSort())
            generic('a text is of one number', [i >= 0, j >= 0, z3.IntToStr(i) == z3.IntToStr(j)], i == j, [(i, p.arg(0)), (j, q.arg(0))])
            a, b = [rest][:len(a[1].as_string()) - 1] + a[2:], [rest][:len(a[1].as_string()) - 1] + b[2:]
        else:
            x, y, u, w = c('x'), c('y'), c('u'), c('w')
            if not v.ensure('the length of each part is known', z3.Length(p) == z3.Length(q)):
                return False
            generic('a part of known length is read', [z3.Length(x) == z3.Length(y), z3.Concat(x, u) == z3.Concat(y, w)],
                    z3.And(x == y, u == w), [(x, p), (y, q), (u, r), (w, s)])
            a, b = a[1:], b[1:]
    return True


@contract('P21', FW + 'cache_file', name='name of a cache', timeout=20, z3_first=1)
def cache_name(v):
    """the text which is hashed holds, for each watched file in order, a part which tells its name, its content, and where it ends:
    two folders have the same text only if they have the same files (by induction on the files: the first parts are equal, and the
    rests)"""
    def path(it):
        it.bytes_as_text = True
        hashed = []

        def hash_(it, a, k):
            h = stub_obj(it, 'hash')
            hashed.append(zstr(a[0]))
            h.methods = {'hexdigest': lambda it, o: Stub(lambda it, b, k: SStr(HASH(hashed[-1])))}
            return h
        hl = stub_obj(it, 'hashlib')
        hl.methods = {n: (lambda it, o: Stub(hash_)) for n in ('md5', 'sha1', 'sha224', 'sha256', 'sha512', 'blake2b')}
        it.globals[MOD, 'hashlib'] = hl
        os = stub_obj(it, 'os', path=stub_obj(it, 'path'))
        rel = lambda it, a, k: SStr(z3.SubString(zstr(a[0]), z3.Length(zstr(a[1])) + 1, z3.Length(zstr(a[0]))))
        os.attrs['path'].methods = {'join': lambda it, o: Stub(lambda it, a, k: join(a)), 'relpath': lambda it, o: Stub(rel)}
        it.globals[MOD, 'os'] = os
        handles = []

        def open_(it, a, k):
            need(len(a) > 1 and a[1] == 'rb', 'mode')
            h = stub_obj(it, 'file')
            h.methods = {'__enter__': lambda it, o: Stub(lambda it, a, k: h), '__exit__': lambda it, o: Stub(lambda it, a, k: None),
                         'read': lambda it, o: Stub(lambda it, b, k: SStr(CONTENT(zstr(a[0])))), 'close': lambda it, o: Stub(lambda it, a, k: None)}
            return h
        it.globals[MOD, 'open'] = Stub(open_)
        folder, name, db = it.fresh('folder', T.Str), it.fresh('name', T.Str), it.fresh('db', T.Str)
        n, i = it.ctx.fresh('n', z3.IntSort()), it.ctx.fresh('i', z3.IntSort())
        it.ctx.assume(n >= 0)
        file = z3.Concat(db.z, z3.StringVal('/'), REL(i))
        o = HObj(v.resolve(FW[:-1]), epoch=it.ctx.epoch)
        o.attrs.update(cache_folder=folder, name=name, db_path=db, files=VList([Part([i], z3.And(i >= 0, i < n), SStr(file), n)]))
        r = v.call(it, o)
        if not v.ensure('no exception', r.ok and len(hashed) == 1):
            return
        v.ensure('named after the hash', zstr(r.value) == JOIN(folder.z, z3.Concat(
            z3.StringVal('.'), name.z, z3.StringVal('-cache.'), HASH(hashed[0]))))
        joins = [x for x in flat(hashed[0]) if not z3.is_string_value(x)]
        if not v.ensure('the text is made of a part for each file', len(joins) == 1 and str(joins[0]) in it.opaques):
            return
        op, parts = it.opaques[str(joins[0])]
        need(op == "join ''" and len(parts) == 1 and parts[0].n is not None, 'texts joined')
        p = parts[0]
        v.ensure('for each watched file', p.n == n)
        w = [it.ctx.fresh('w', z3.IntSort())]
        chunk = zstr(v_subst(p.value, [(p.vars[0], w[0])]))
        file = z3.Concat(db.z, z3.StringVal('/'), REL(w[0]))
        chunk = simpler(chunk, [REL(w[0])])
        from pyvc.builtin import utf8
        st = [it.ctx.fresh(x, STR) for x in ('name1', 'content1', 'name2', 'content2', 'rest1', 'rest2')]
        n1, c1, n2, c2, x1, x2 = st
        both = [(utf8(REL(w[0])), n1), (CONTENT(file), c1)]
        e1 = z3.simplify(z3.substitute(chunk, *both))
        need(not any(str(s) in e1.sexpr() for s in ('name in the folder', 'content of a file', str(w[0]))), 'part of a file')
        e2 = z3.substitute(e1, (n1, n2), (c1, c2))
        a, b = flat(e1) + [x1], flat(e2) + [x2]
        it.ctx.assume(cat(a) == cat(b))
        if decode(it, v, a, b):
            v.ensure('the same name', n1 == n2)
            v.ensure('the same content', c1 == c2)
            v.ensure('and the same rest', x1 == x2)
            v.ensure('the part of a file is not empty', z3.Length(e1) >= 1)
    v.trust('no collision of the hash; utf-8 tells texts apart; the content of a file does not change while it is read')
    v.paths(path)


@contract('P21', FW + '__init__', name='watched files')
def watched(v):
    """all the files of the folder which match, in the order of their names"""
    def path(it):
        found = it.fresh('found', T.Seq(T.Str))
        asked = []
        gl = stub_obj(it, 'glob')

        def glob(it, a, k):
            asked.append((a[0], k.get('recursive')))
            return found
        gl.methods = {'glob': lambda it, o: Stub(glob), 'iglob': lambda it, o: Stub(glob)}
        it.globals[MOD, 'glob'] = gl
        os = stub_obj(it, 'os', path=stub_obj(it, 'path'))
        os.attrs['path'].methods = {'join': lambda it, o: Stub(lambda it, a, k: join(a)), 'abspath': lambda it, o: Stub(
            lambda it, a, k: SStr(ABS(zstr(a[0]))))}
        it.globals[MOD, 'os'] = os
        o = HObj(v.resolve(FW[:-1]), epoch=it.ctx.epoch)
        db, pat, folder, name = [it.fresh(x, T.Str) for x in ('db', 'pattern', 'folder', 'name')]
        r = v.call(it, o, db, pat, folder, name)
        if not v.ensure('no exception', r.ok and len(asked) == 1):
            return
        v.ensure('the files asked', z3.And(zstr(asked[0][0]) == JOIN(db.z, pat.z), asked[0][1] is True))
        l = it.to_seq(o.attrs['files'])
        j = z3.Int('fj')
        inr = z3.And(j >= 0, j < found.parts[0].n)
        b = bag(l)
        v.ensure('all of them', z3.ForAll([j], z3.Implies(inr, some_element(it, b, lambda e: zstr(e) == ABS(found.at(j))))))
        v.ensure('and no other', for_elements(it, b, lambda e: z3.Exists([j], z3.And(inr, zstr(e) == ABS(found.at(j))))))
        need(getattr(l, 'sorted_from', None) is not None, 'not sorted')
        v.ensure('names and folders', z3.And(zstr(o.attrs['name']) == name.z, zstr(o.attrs['db_path']) == db.z))
    v.trust('glob gives the files which match the pattern')
    v.paths(path)


ABS = z3.Function('absolute path', STR, STR)
