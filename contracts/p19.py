"""P19: git transactions. libgit2 is replaced by its contract: a ghost repository, whose calls are recorded in a trace and may
fail."""
from .uslcommon import *
import pygit2

GI = 'ieml.ieml_database.git_interface:'
MOD = 'ieml.ieml_database.git_interface'
FLAGS = dict(new=pygit2.GIT_STATUS_WT_NEW, deleted=pygit2.GIT_STATUS_WT_DELETED, modified=pygit2.GIT_STATUS_WT_MODIFIED,
             renamed=pygit2.GIT_STATUS_WT_RENAMED)
STATUS = ObjType('Status', [int], {f: T.Bool for f in FLAGS}, key=None)


def and_(it, o):
    def f(it, a, k):
        names = [n for n, x in FLAGS.items() if isinstance(a[0], int) and a[0] & x]
        need(isinstance(a[0], int) and a[0] == sum(FLAGS[n] for n in names), 'status flag %s' % (a[0],))
        return it.wrap_bool(z3.Or([STATUS.z(n, o.z) for n in names]))
    return Stub(f)


STATUS.methods.update(__and__=and_, __rand__=and_)
PATH, KIND = 'path', 'kind'
ENTRY = ObjType('Entry', [tuple], dict(path=T.Str, kind=T.Obj(STATUS)), key=None)
ENTRY.fields = ['path', 'kind']


def files(it, name):
    """a status: paths, all different, and what happened to each: one thing (libgit2)"""
    l = it.fresh(name, T.Seq(ENTRY))
    i, j = z3.Ints('fi fj')
    n, e = l.parts[0].n, l.at
    it.ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), ENTRY.z('path', e(i)) != ENTRY.z('path', e(j)))))
    fl = [STATUS.z(f, ENTRY.z('kind', e(i))) for f in FLAGS]
    it.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Or(fl), z3.Or(
        [z3.And([z3.Not(x) for x in fl if x is not y]) for y in fl]))), patterns=[e(i)]))
    p = l.parts[0]
    d = VDict([Part(p.vars, p.guard, (SStr(ENTRY.z('path', p.value.z)), it.ref(ENTRY.z('kind', p.value.z), STATUS)), p.n)])
    return l, d


def recorder(it, name, value=None, fails=False):
    """method which is recorded, and may fail with a GitError"""
    def f(it, a, k):
        if fails and it.ctx.choose(2):
            it.ctx.event('failed', name)
            raise Raised(ExcVal(pygit2.GitError, (name,)))
        it.ctx.event(name, *a, *k.values())
        return value
    return lambda it, o: Stub(f)


def events(it, name=None):
    r = [(p, p.value) for p in it.ctx.trace.parts]
    return [(k, p, e) for k, (p, e) in enumerate(r) if name is None or e[0] == name]


def quiet(it):
    for m in (MOD, 'ieml.commons'):
        it.globals[m, 'error'] = it.globals[m, 'print'] = Stub(lambda it, a, k: None)
        it.globals[m, 'time'] = Stub(lambda it, a, k: 0)
    log = stub_obj(it, 'logger')
    log.methods = {n: (lambda it, o: Stub(lambda it, a, k: None)) for n in ('info', 'debug', 'warning', 'error')}
    it.globals[MOD, 'logger'] = log


@contract('P19', GI + 'GitInterface.status', name='status')
def status(v):
    """the status of the repository, without the paths which start with a dot"""
    def path(it):
        l, d = files(it, 'files')
        repo = stub_obj(it, 'repo')
        repo.methods = {'status': lambda it, o: Stub(lambda it, a, k: d)}
        it.ctx.contracts[GI + 'GitInterface.repo'] = lambda it, a, k: repo
        o = HObj(v.resolve(GI + 'GitInterface'), epoch=it.ctx.epoch)
        o.attrs.update(folder='/folder')
        r = v.call(it, o)
        if not v.ensure('no exception', r.ok and isinstance(r.value, VDict)):
            return
        res = VList(r.value.parts)
        j = z3.Int('sj')
        n = l.parts[0].n
        path = lambda j: ENTRY.z('path', l.at(j))
        shown = lambda j: z3.And(j >= 0, j < n, z3.Not(z3.PrefixOf(z3.StringVal('.'), path(j))))
        same = lambda e, j: z3.And(zstr(e[0]) == path(j), e[1].z == ENTRY.z('kind', l.at(j)))
        v.ensure('every file not hidden', z3.ForAll([j], z3.Implies(shown(j), some_element(it, res, lambda e: same(e, j)))))
        v.ensure('and nothing else', for_elements(it, res, lambda e: z3.Exists([j], z3.And(shown(j), same(e, j)))))
    v.trust('libgit2: status, index, commit, reset do what they document')
    v.paths(path)


def database(it, d, **attrs):
    index = stub_obj(it, 'index')
    tree = stub_obj(it, 'tree')
    index.methods = dict(read=recorder(it, 'read', fails=True), add=recorder(it, 'add', fails=True), remove=recorder(it, 'remove', fails=True),
                         write=recorder(it, 'write', fails=True), write_tree=recorder(it, 'write_tree', tree, True))
    head = stub_obj(it, 'head', target=stub_obj(it, 'current head'))
    head.attrs['name'] = 'refs/heads/master'
    repo = stub_obj(it, 'repo', index=index, head=head)
    oid = stub_obj(it, 'oid')
    oid.methods = {'__str__': lambda it, o: Stub(lambda it, a, k: 'oid')}
    repo.methods = dict(create_commit=recorder(it, 'create_commit', oid, True))
    db = stub_obj(it, 'db', repo=repo, **attrs)
    db.methods = {'status': lambda it, o: Stub(lambda it, a, k: d), 'reset': recorder(it, 'reset')}
    return db, tree, head


def transaction(it, v, db, **attrs):
    o = HObj(v.resolve(GI + 'git_transaction'), epoch=it.ctx.epoch)
    o.attrs.update(db=db, **attrs)
    return o


@contract('P19', GI + 'git_transaction.__enter__', name='start')
def start(v):
    def path(it):
        quiet(it)
        l, d = files(it, 'files')
        db, tree, head = database(it, d)
        o = transaction(it, v, db)
        r = v.call(it, o)
        clean = l.parts[0].n == 0
        if r.ok:
            v.ensure('started only on a clean repository', clean)
            v.ensure('the head is kept', o.attrs.get('commit_id') is head.attrs['target'])
        else:
            v.ensure('refused with ValueError on a modified one', z3.And(r.raises(ValueError), z3.Not(clean)))
        v.ensure('nothing is changed', not events(it))
    v.declare('started only on a clean repository', 'refused with ValueError on a modified one')
    v.paths(path)


@contract('P19', GI + 'git_transaction.__exit__', name='failed body')
def failed(v):
    def path(it):
        quiet(it)
        l, d = files(it, 'files')
        db, tree, head = database(it, d)
        at0 = stub_obj(it, 'head at the start')
        o = transaction(it, v, db, commit_id=at0, signature=stub_obj(it, 'signature'), message='message')
        r = v.call(it, o, ValueError, stub_obj(it, 'value'), stub_obj(it, 'traceback'))
        if not v.ensure('no other exception', r.ok):
            return
        v.ensure('the exception goes through', not (r.value if isinstance(r.value, bool) or r.value is None else True))
        rs = events(it, 'reset')
        v.ensure('back to the head of the start', len(rs) == 1 and rs[0][2][1:] == (at0,))
        v.ensure('no commit', not events(it, 'create_commit') and not events(it, 'write'))
    v.paths(path)


@contract('P19', GI + 'git_transaction.__exit__', name='commit')
def commit(v):
    def path(it):
        quiet(it)
        l, d = files(it, 'files')
        db, tree, head = database(it, d)
        at0, sig = stub_obj(it, 'head at the start'), stub_obj(it, 'signature')
        o = transaction(it, v, db, commit_id=at0, signature=sig, message='message')
        r = v.call(it, o, None, None, None)
        commits, resets = events(it, 'create_commit'), events(it, 'reset')
        n = l.parts[0].n
        if events(it, 'failed'):
            v.ensure('a failure to commit is raised', r.raises(pygit2.GitError))
            v.ensure('and undone', len(resets) == 1 and resets[0][2][1:] == (at0,) and not commits)
            return
        if not v.ensure('no exception', r.ok):
            return
        v.ensure('nothing is undone', not resets)
        if not commits:
            v.ensure('no commit only when nothing changed', n == 0)
            return
        v.ensure('no commit when nothing changed', n > 0)
        if not v.ensure('one commit', len(commits) == 1 and z3.is_true(commits[0][1].guard)):
            return
        k, _, e = commits[0]
        b = bind(lambda ref, author, committer, message, tree, parents: 0, e[1:], {})
        v.ensure('on the branch, by the given author, with the given message', b['author'] is sig and b['message'] == 'message' and
                 b['ref'] in ('refs/heads/master', 'HEAD'))
        ps = it.to_seq(b['parents']).items()
        v.ensure('on top of the head of the start', len(ps) == 1 and ps[0] is at0)
        trees = events(it, 'write_tree')
        v.ensure('of the tree of the index', b['tree'] is tree and len(trees) == 1 and trees[0][0] < k)
        stage = [(i, p, e) for i, p, e in events(it) if e[0] in ('add', 'remove')]
        v.ensure('written after all the files are staged', all(i < trees[0][0] for i, _, _ in stage))
        v.ensure('the index is kept', any(trees[0][0] != i and i > max([x[0] for x in stage] or [-1]) for i, _, _ in events(it, 'write')))
        j = z3.Int('cj')
        inr = z3.And(j >= 0, j < n)
        gone = lambda j: STATUS.z('deleted', ENTRY.z('kind', l.at(j)))
        path = lambda j: ENTRY.z('path', l.at(j))
        adds = VList([Part(p.vars, p.guard, e[1]) for _, p, e in stage if e[0] == 'add'])
        dels = VList([Part(p.vars, p.guard, e[1]) for _, p, e in stage if e[0] == 'remove'])
        v.ensure('every file created or changed is staged', z3.ForAll([j], z3.Implies(z3.And(inr, z3.Not(gone(j))), some_element(
            it, adds, lambda e: zstr(e) == path(j)))))
        v.ensure('every file deleted is removed', z3.ForAll([j], z3.Implies(z3.And(inr, gone(j)), some_element(
            it, dels, lambda e: zstr(e) == path(j)))))
        v.ensure('no other is staged', for_elements(it, adds, lambda e: z3.Exists([j], z3.And(inr, z3.Not(gone(j)), zstr(e) == path(j)))))
        v.ensure('no other is removed', for_elements(it, dels, lambda e: z3.Exists([j], z3.And(inr, gone(j), zstr(e) == path(j)))))
    v.declare('and undone', 'one commit', 'no commit only when nothing changed')
    v.paths(path)


@contract('P19', GI + 'GitInterface.reset', name='reset')
def reset(v):
    """the hard reset of libgit2 restores the tracked files; then the files which are new are deleted"""
    def path(it):
        quiet(it)
        l, d = files(it, 'files')
        head = stub_obj(it, 'head', target=stub_obj(it, 'current head'))
        head.attrs['target'].methods = {'__str__': lambda it, o: Stub(lambda it, a, k: 'head')}
        repo = stub_obj(it, 'repo', head=head)
        repo.methods = dict(state_cleanup=recorder(it, 'cleanup'), reset=recorder(it, 'reset'))
        it.ctx.contracts[GI + 'GitInterface.repo'] = lambda it, a, k: repo

        def stat(it, a, k):
            it.ctx.event('status')
            return d
        it.ctx.contracts[GI + 'GitInterface.status'] = stat
        it.globals[MOD, 'os'] = OS(it)
        o = HObj(v.resolve(GI + 'GitInterface'), epoch=it.ctx.epoch)
        o.attrs.update(folder=SStr(it.ctx.fresh('folder', z3.StringSort())))
        target = stub_obj(it, 'target') if it.ctx.choose(2) else None
        r = v.call(it, o, target)
        if not v.ensure('no exception', r.ok):
            return
        rs, st, rm = events(it, 'reset'), events(it, 'status'), events(it, 'remove file')
        v.ensure('one hard reset to the commit, or to the head', len(rs) == 1 and rs[0][2][1:] == (
            target or head.attrs['target'], pygit2.GIT_RESET_HARD))
        v.ensure('no pending merge is left', bool(events(it, 'cleanup')))
        if not v.ensure('the new files are those of the status after it', len(st) == 1 and st[0][0] > rs[0][0] and all(
                i > st[0][0] for i, _, _ in rm)):
            return
        j = z3.Int('dj')
        f = o.attrs['folder'].z
        inr = z3.And(j >= 0, j < l.parts[0].n, STATUS.z('new', ENTRY.z('kind', l.at(j))))
        full = lambda j: JOIN(f, ENTRY.z('path', l.at(j)))
        out = VList([Part(p.vars, p.guard, e[1]) for _, p, e in rm])
        v.ensure('every new file is deleted', z3.ForAll([j], z3.Implies(inr, some_element(it, out, lambda e: zstr(e) == full(j)))))
        v.ensure('no other file is', for_elements(it, out, lambda e: z3.Exists([j], z3.And(inr, zstr(e) == full(j)))))
    v.paths(path)


JOIN = z3.Function('join', z3.StringSort(), z3.StringSort(), z3.StringSort())


def OS(it, **more):
    p = stub_obj(it, 'os.path')
    p.methods = {'join': lambda it, o: Stub(lambda it, a, k: join(a))}
    o = stub_obj(it, 'os', path=p)
    o.methods = dict({'remove': recorder(it, 'remove file'), 'unlink': recorder(it, 'remove file')}, **more)
    return o


def join(a):
    z = zstr(a[0])
    for x in a[1:]:
        z = JOIN(z, zstr(x))
    return SStr(z)
