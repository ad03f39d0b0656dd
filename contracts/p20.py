"""P20: pull. libgit2 is replaced by its contract; an arbitrary number of files in conflict."""
from .uslcommon import *
from .p19 import events, recorder, quiet, JOIN, join, OS
from .p18 import inner, call_inner
import pygit2

GI = 'ieml.ieml_database.git_interface:'
MOD = 'ieml.ieml_database.git_interface'
DE = 'ieml.ieml_database.descriptors:'
STR = z3.StringSort()
OID = ObjType('Oid', [object], {}, key=None)
BYTES = ObjType('Bytes', [bytes], {}, key=None)
BLOB = ObjType('Blob', [object], dict(data=T.Obj(BYTES)), key=None)
TEXT = z3.Function('text', Ref, STR)
BYTES.methods['decode'] = lambda it, o: Stub(lambda it, a, k: SStr(TEXT(o.z)))
ENTRY = ObjType('IndexEntry', [pygit2.IndexEntry], dict(path=T.Str, oid=T.Obj(OID), id=T.Obj(OID)), key=None)
CONFLICT = ObjType('Conflict', [tuple], dict(ancestor=T.Opt(T.Obj(ENTRY)), local=T.Opt(T.Obj(ENTRY)), remote=T.Opt(T.Obj(ENTRY))), key=None)
CONFLICT.fields = ['ancestor', 'local', 'remote']
DESC = ObjType('Descriptors of a usl', [dict], {}, key=None)
GET = z3.Function('blob', Ref, Ref)
USL = z3.Function('usl of the file', STR, STR)
DESC_OF = z3.Function('descriptors of the file', STR, Ref)

absent = lambda c, n: CONFLICT.none(n, c)
entry = lambda c, n: CONFLICT.z(n, c)
data = lambda c, n: BLOB.z('data', GET(ENTRY.z('oid', entry(c, n))))
text = lambda c, n: TEXT(data(c, n))
path_of = lambda c: z3.If(absent(c, 'local'), ENTRY.z('path', entry(c, 'remote')), ENTRY.z('path', entry(c, 'local')))


def conflicts(it):
    """the files in conflict: changed on both sides, or created on both, or changed on one and deleted on the other; none renamed"""
    l = it.fresh('conflicts', T.Seq(CONFLICT))
    i, j = z3.Ints('fi fj')
    n, e = l.parts[0].n, l.at
    it.ctx.assume(n >= 1)
    P = lambda n, c: ENTRY.z('path', entry(c, n))
    c = e(i)
    A, L, R = (absent(c, x) for x in CONFLICT.fields)
    one_file = z3.And(
        z3.Not(z3.And(A, L)), z3.Not(z3.And(A, R)), z3.Not(z3.And(L, R)),
        z3.Implies(z3.And(z3.Not(A), z3.Not(L)), P('ancestor', c) == P('local', c)),
        z3.Implies(z3.And(z3.Not(A), z3.Not(R)), P('ancestor', c) == P('remote', c)),
        z3.Implies(z3.And(z3.Not(L), z3.Not(R)), P('local', c) == P('remote', c)),
        *[ENTRY.z('oid', entry(c, x)) == ENTRY.z('id', entry(c, x)) for x in CONFLICT.fields])
    it.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), one_file), patterns=[e(i)]))
    it.ctx.assume(z3.substitute(one_file, (i, z3.IntVal(0))))
    # different files, of different usls
    key = lambda c: USL(z3.If(absent(c, 'local'), text(c, 'remote'), text(c, 'local')))
    it.ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n, i != j), z3.And(path_of(e(i)) != path_of(e(j)), key(e(i)) != key(e(j))))))
    return l, n, e


def is_empty_descriptors(x):
    import ieml.constants as C
    pairs = lambda d: d.items() if isinstance(d, dict) else [p.value for p in d.parts]
    try:
        return {k: {l: list(m) if isinstance(m, list) else m.items() for l, m in pairs(v)} for k, v in pairs(x)} == {
            d: {l: [] for l in C.LANGUAGES} for d in C.DESCRIPTORS_CLASS}
    except Exception:
        return False


@contract('P20', GI + 'GitInterface.pull', name='pull', timeout=30, total=300)
def pull(v):
    """one of four cases, by the analysis of libgit2; the two histories are joined by one commit with both heads as parents, whose
    tree is the one of the merge, with the remote side of the files in conflict"""
    def path(it):
        quiet(it)
        handles = []

        def open_(it, a, k):
            h = stub_obj(it, 'file')
            b = bind(lambda name, mode='r', *x, **y: 0, a, k)
            need(b['mode'] == 'wb', 'mode')
            name = zstr(b['name'])
            h.methods = {'__enter__': lambda it, o: Stub(lambda it, a, k: h), '__exit__': lambda it, o: Stub(lambda it, a, k: None),
                         'close': lambda it, o: Stub(lambda it, a, k: None),
                         'write': lambda it, o: Stub(lambda it, a, k: it.ctx.event('write', SStr(name), a[0]))}
            return h
        it.globals[MOD, 'open'] = Stub(open_)
        it.globals[MOD, 'os'] = OS(it)
        it.globals[MOD, 'stderr'] = stub_obj(it, 'stderr')
        case = it.ctx.choose(4)
        merged = case == 2 and bool(it.ctx.choose(2))
        l, n, e = conflicts(it)
        cf = stub_obj(it, 'conflicts')
        cf.methods = {'__iter__': lambda it, o: Stub(lambda it, a, k: VList(l.parts, epoch=-1)), '__delitem__': recorder(it, 'resolve'),
                      '__bool__': lambda it, o: Stub(lambda it, a, k: True)}
        tree, target, head = stub_obj(it, 'tree'), stub_obj(it, 'remote head'), stub_obj(it, 'head', target=stub_obj(it, 'local head'), shorthand='master')
        head.attrs['name'] = 'refs/heads/master'
        index = stub_obj(it, 'index', conflicts=None if merged else cf)
        index.methods = dict(add=recorder(it, 'add'), remove=recorder(it, 'remove'), write=recorder(it, 'write index'), read=recorder(it, 'read'),
                             write_tree=recorder(it, 'write_tree', tree))
        ref = stub_obj(it, 'reference', target=target)
        commit = stub_obj(it, 'commit', author=stub_obj(it, 'author'), committer=stub_obj(it, 'committer'), message='text', id=target)
        rem = stub_obj(it, 'remote')

        def fetch(it, a, k):
            it.ctx.event('fetch')
            if it.ctx.choose(2):
                raise Raised(ExcVal(pygit2.GitError, ('fetch',)))
        rem.methods = {'fetch': lambda it, o: Stub(fetch)}
        remotes = stub_obj(it, 'remotes')

        def remote(it, a, k):
            v.ensure('the remote asked', a[0] == 'origin')
            return rem
        remotes.methods = {'__getitem__': lambda it, o: Stub(remote)}
        repo = stub_obj(it, 'repo', head=head, index=index, remotes=remotes)
        N, F, U = pygit2.GIT_MERGE_ANALYSIS_NORMAL, pygit2.GIT_MERGE_ANALYSIS_FASTFORWARD, pygit2.GIT_MERGE_ANALYSIS_UP_TO_DATE
        flags = [int(U), int(N) | int(F), int(N), 0][case]

        def lookup(it, a, k):
            v.ensure('the branch of the remote', a[0] == 'refs/remotes/origin/master')
            v.ensure('as it was fetched', bool(events(it, 'fetch')))
            return ref

        def analysis(it, a, k):
            v.ensure('the analysis of the head of the remote', a[0] is target)
            return flags, 0

        def get(it, a, k):
            return it.ref(GET(a[0].z), BLOB) if isinstance(a[0], SRef) else commit
        repo.methods = {'lookup_reference': lambda it, o: Stub(lookup), 'merge_analysis': lambda it, o: Stub(analysis), 'get': lambda it, o: Stub(get),
                        'merge': recorder(it, 'merge'), 'create_commit': recorder(it, 'commit', stub_obj(it, 'oid')), 'state_cleanup': recorder(it, 'cleanup')}
        repo.methods['__getitem__'] = repo.methods['get']
        it.ctx.contracts[GI + 'GitInterface.repo'] = lambda it, a, k: repo
        it.ctx.contracts[GI + 'GitInterface.checkout'] = lambda it, a, k: it.ctx.event('checkout', *bind(
            lambda self, branch=None, commit_id=None: 0, a, k).values())

        def csv(it, a, k):
            z = zstr(a[0])
            return VDict([one((SStr(USL(z)), it.ref(DESC_OF(z), DESC)))], epoch=it.ctx.epoch)
        it.ctx.contracts[DE + 'Descriptors.from_csv_string'] = csv
        o = HObj(v.resolve(GI + 'GitInterface'), epoch=it.ctx.epoch)
        folder = it.fresh('folder', T.Str)
        o.attrs.update(folder=folder, credentials=None, branch='master', origin='url')
        r = call_inner(v, it, it.ifunc(inner(v.resolve())), o)
        ev = lambda name: events(it, name)
        changing = [x for n_ in ('write', 'remove file', 'add', 'remove', 'resolve', 'write index', 'write_tree', 'commit', 'merge', 'checkout') for x in ev(n_)]
        if case == 3:
            v.ensure('unrelated histories are refused', r.raises(ValueError) and not changing)
            return
        if not v.ensure('no exception', r.ok):
            return
        conf = r.value
        need(isinstance(conf, (VDict, dict)), 'result')
        if case < 2 or merged:
            v.ensure('no conflict is told', (not conf.parts) if isinstance(conf, VDict) else conf == {})
        if case == 0:
            v.ensure('nothing new: nothing changes', not changing)
            return
        if case == 1:
            co = ev('checkout')
            v.ensure('only the remote moved: to its head', len(co) == 1 and len(changing) == 1 and co[0][2][2:] == (None, target))
            return
        mg, cm, wt = ev('merge'), ev('commit'), ev('write_tree')
        if not v.ensure('merged then committed once', len(mg) == len(cm) == len(wt) == 1 and mg[0][2][1] is target and mg[0][0] < wt[0][0] < cm[0][0]):
            return
        a = cm[0][2]
        par = it.to_seq(a[6]).items()
        v.ensure('by a commit of the branch with the tree of the merge', a[1] in ('HEAD', 'refs/heads/master') and a[5] is tree)
        v.ensure('whose parents are both heads', len(par) == 2 and par[0] is head.attrs['target'] and par[1] is target)
        if merged:
            v.ensure('without conflict, no file is changed', not ev('write') and not ev('remove file') and not ev('add') and not ev('resolve') and not ev('remove'))
            return
        v.ensure('after the files in conflict are settled', all(k < wt[0][0] for x in ('write', 'remove file', 'add', 'resolve', 'remove') for k, _, _ in ev(x)))
        j = z3.Int('cj')
        inr = z3.And(j >= 0, j < n)
        c = e(j)
        full = JOIN(folder.z, path_of(c))
        L = lambda name: VList([Part(p.vars, p.guard, tuple(x[1:])) for _, p, x in ev(name)])
        there, gone = z3.And(inr, z3.Not(absent(c, 'remote'))), z3.And(inr, absent(c, 'remote'))
        v.ensure('a file in conflict is the one of the remote', z3.ForAll([j], z3.Implies(there, some_element(
            it, L('write'), lambda x: z3.And(zstr(x[0]) == full, x[1].z == data(c, 'remote'))))))
        v.ensure('no other is written', for_elements(it, L('write'), lambda x: z3.Exists([j], z3.And(
            there, zstr(x[0]) == full, x[1].z == data(c, 'remote')))))
        v.ensure('it is added to the tree', z3.ForAll([j], z3.Implies(there, some_element(it, L('add'), lambda x: zstr(x[0]) == path_of(c)))))
        v.ensure('no other is', for_elements(it, L('add'), lambda x: z3.Exists([j], z3.And(there, zstr(x[0]) == path_of(c)))))
        v.ensure('or deleted when the remote deleted it', z3.ForAll([j], z3.Implies(gone, some_element(it, L('remove file'), lambda x: zstr(x[0]) == full))))
        v.ensure('no other is deleted', for_elements(it, L('remove file'), lambda x: z3.Exists([j], z3.And(gone, zstr(x[0]) == full))))
        v.ensure('and left out of the tree', z3.ForAll([j], z3.Implies(gone, z3.Or(some_element(it, L('resolve'), lambda x: zstr(x[0]) == path_of(c)),
                                                                                  some_element(it, L('remove'), lambda x: zstr(x[0]) == path_of(c))))))
        for w in ('resolve', 'remove'):
            v.ensure('no other is left out (%s)' % w, for_elements(it, L(w), lambda x: z3.Exists([j], z3.And(gone, zstr(x[0]) == path_of(c)))))
        # conflicts told
        parts = conf.parts if isinstance(conf, VDict) else []
        told = VList([Part(p.vars, p.guard, p.value) for p in parts])
        desc = lambda c: z3.SuffixOf(z3.StringVal('.desc'), path_of(c))
        for x in parts:
            need(isinstance(x.value[1], SRef) or is_empty_descriptors(x.value[1]), 'value of a conflict')
        lo = lambda c, x: z3.And(z3.Not(absent(c, 'local')), zstr(x[0]) == USL(text(c, 'local')), x[1].z == DESC_OF(text(c, 'local'))) if isinstance(
            x[1], SRef) else z3.BoolVal(False)
        de = lambda c, x: z3.And(absent(c, 'local'), zstr(x[0]) == USL(text(c, 'remote'))) if not isinstance(x[1], SRef) else z3.BoolVal(False)
        one_ = lambda c, x: z3.Or(lo(c, x), de(c, x))
        v.ensure('the local side of each descriptor file in conflict is told', z3.ForAll([j], z3.Implies(z3.And(inr, desc(c)), some_element(
            it, told, lambda x: one_(c, x)))))
        v.ensure('and nothing else', for_elements(it, told, lambda x: z3.Exists([j], z3.And(inr, desc(c), one_(c, x)))))
    v.declare('and nothing else', 'a file in conflict is the one of the remote', 'only the remote moved: to its head')
    v.trust('libgit2: fetch, merge_analysis, merge (three way merge of the files), index, commit; Index.add removes the conflict of the file')
    v.paths(path)


@contract('P20', GI + 'GitInterface.checkout', name='checkout')
def checkout(v):
    """the branch, or the current one, then the commit asked"""
    def path(it):
        quiet(it)
        head, branch = stub_obj(it, 'head'), stub_obj(it, 'branch')
        repo = stub_obj(it, 'repo', head=head)

        def lookup(it, a, k):
            v.ensure('the branch asked', a[0] == 'refs/heads/dev')
            return branch
        repo.methods = {'lookup_reference': lambda it, o: Stub(lookup), 'checkout': recorder(it, 'checkout')}
        it.ctx.contracts[GI + 'GitInterface.repo'] = lambda it, a, k: repo
        it.ctx.contracts[GI + 'GitInterface.reset'] = lambda it, a, k: it.ctx.event('reset', *a[1:], *k.values())
        b = 'dev' if it.ctx.choose(2) else None
        c = stub_obj(it, 'commit') if it.ctx.choose(2) else None
        o = HObj(v.resolve(GI + 'GitInterface'), epoch=it.ctx.epoch)
        r = v.call(it, o, b, c)
        if not v.ensure('no exception', r.ok):
            return
        co, rs = events(it, 'checkout'), events(it, 'reset')
        v.ensure('what is not committed is dropped first', len(rs) >= 1 and rs[0][2][1:] in ((), (None,)) and all(rs[0][0] < k for k, _, _ in co))
        v.ensure('the branch', len(co) == 1 and co[0][2][1] is (branch if b else head))
        after = [x for k, _, x in rs if k > co[0][0]]
        v.ensure('then the commit asked, if any', [x[1:] for x in after] == ([(c,)] if c else []) if c else all(x[1:] in ((), (None,)) for x in after))
    v.paths(path)
