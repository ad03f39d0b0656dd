"""Bounded cases on the database of descriptors (P18-P21, P23).  Everything happens in scratch folders with their own git
repositories, created and removed by each case."""
import atexit
import collections
import contextlib
import csv
import io
import itertools
import os
import random
import shutil
import tempfile

import pygit2

from . import ref as R, gen
from .core import case, generator, check, equal, Violation, raises, Skip
from .cases_dict import some_root, sub, to_recipe, disjoint, table_ref, observed
from ieml.constants import LANGUAGES, DESCRIPTORS_CLASS, INHIBITABLE_RELATIONS, RELATIONS
from ieml.commons import cache_results_watch_files
from ieml.dictionary.script import script, factorize
from ieml.ieml_database import IEMLDatabase, GitInterface
from ieml.ieml_database.descriptors import Descriptors
from ieml.ieml_database.transactions.DBTransaction import DBTransactions
from ieml.exceptions import CannotParse
from ieml.usl.parser import IEMLParser
from ieml.usl import PolyMorpheme, Lexeme, Word

SIG = pygit2.Signature('a name', 'a@b.c')
# (text given, canonical text, kind, plural)
USLS = ["a.", "b.", "wa.", "E:", "S:", "b.+a.", "O:M:.", "O:O:.", "F:.", "wa.-", "M:M:.-",
        "a. b.", "b. a.", "wa. we. S:",
        "a. m1(b. wa.)", "m1(U:) m1(A: S: B:)",
        "()(a.)", "(b.)(a. wa.)", "(m1(E:A:. E:S:.))(a.)",
        "[! E:S:. ()(a.)]", "[! E:A:.  ()(a.) > E:A:. E:A:. ()(b.)]", "[! E:S:. ()(m1(a. b.))]"]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif_db_')
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            yield d
    finally:
        shutil.rmtree(d, True)


_canon = {}


def canon(text):
    """(canonical text, folder, plural) of a USL text"""
    if text not in _canon:
        u = IEMLParser().parse(text)
        kind = {PolyMorpheme: 'polymorpheme', Lexeme: 'lexeme', Word: 'word'}.get(u.__class__, 'morpheme')
        _canon[text] = (str(u), kind, len(u) > 1)
    return _canon[text]


def long_words(n):
    """polymorphemes with texts longer than the limit of file names; the first ones have their first 100 characters in
    common"""
    ends = ['a.', 'b.', 'u.', 'wo.', 'c.', 'd.', 'f.', 'g.']
    common = "wa.-we.-wo.-' a.-b.-c.-' S:.-S:.-B:.-' g.-f.-d.-' b.-b.-b.-' h.-j.-c.-' n.-m.-b.-' d.-b.-d.-' B:.-T:.-S:.-' x.-d.-t.-'"
    res = [str(IEMLParser().parse(common + " l.-l.-%s-'" % e)) for e in ends[:n // 2 + 1]]
    res += [str(IEMLParser().parse(common + " d.-%sl.-'" % e)) for e in ends[:n]]
    return res[:n]


def all_records(db):
    return sorted((i, l, d, v) for (i, l, d), (v,) in db.get_descriptors().df.iterrows())


def all_structure(db):
    return sorted((i, k, v) for (i, k), (v,) in db.get_structure().df.iterrows())


def stored(v):
    return v.strip().replace('\n', '\\n')


# ------------------------------------------------------------------ P18
class Model:
    def __init__(self):
        self.desc = []
        self.struct = []

    def add(self, i, l, d, v):
        if stored(v):
            self.desc.append((canon(i)[0], l, d, stored(v)))

    def remove(self, i, l=None, d=None, v=None):
        i = canon(i)[0]
        self.desc = [r for r in self.desc if not (r[0] == i and l in (None, r[1]) and d in (None, r[2]) and
                                                  (v is None or stored(v) == r[3]))]

    def add_s(self, i, k, v):
        self.struct.append((canon(i)[0], k, str(v)))

    def remove_s(self, i, k=None, v=None):
        i = canon(i)[0]
        self.struct = [r for r in self.struct if not (r[0] == i and k in (None, r[1]) and (v is None or str(v) == r[2]))]


def apply(db, m, op):
    k, a = op[0], op[1:]
    if k == 'add':
        db.add_descriptor(*a)
        m.add(*a)
    elif k == 'rem':
        db.remove_descriptor(*a)
        m.remove(*a)
    elif k == 'sadd':
        db.add_structure(*a)
        m.add_s(*a)
    elif k == 'srem':
        db.remove_structure(*a)
        m.remove_s(*a)
    elif k == 'addobj':
        db.add_descriptor(IEMLParser().parse(a[0]), *a[1:])
        m.add(*a)


def compare_store(db, m, usls, what):
    equal(all_records(db), sorted(m.desc), 'descriptors %s' % what)
    equal(all_structure(db), sorted(m.struct), 'structure %s' % what)


@case('P18')
def store_history(ops, reopen):
    with scratch() as d:
        db = IEMLDatabase(d, use_cache=False)
        m = Model()
        for n, op in enumerate(ops):
            apply(db, m, op)
            if n % 5 == 4 or n == len(ops) - 1:
                if reopen:
                    db = IEMLDatabase(d, use_cache=False)
                compare_store(db, m, USLS, 'after %s' % ops[:n + 1])
        desc, st = db.get_descriptors(), db.get_structure()
        usls = sorted({canon(o[1])[0] for o in ops})
        for u in usls:
            part = {}
            for r in m.desc:
                if r[0] == u:
                    part.setdefault(r[:3], []).append(r[3])
            got = desc.get_values_partial(u)
            equal({k: sorted(v) for k, v in got.items()}, {k: sorted(v) for k, v in part.items()}, 'values of %s' % u)
            full = desc.get_descriptor(u)
            equal({k: {l: sorted(v) for l, v in x.items()} for k, x in full.items()},
                  {k: {l: sorted(part.get((u, l, k), [])) for l in LANGUAGES} for k in DESCRIPTORS_CLASS},
                  'descriptors of %s' % u)
            for l in LANGUAGES:
                for k in DESCRIPTORS_CLASS:
                    equal(sorted(desc.get_values(u, l, k)), sorted(part.get((u, l, k), [])), 'values of %s %s %s' % (u, l, k))
                equal({k: sorted(v) for k, v in desc.get_values_partial(u, l).items()},
                      {k: sorted(v) for k, v in part.items() if k[1] == l}, 'values of %s in %s' % (u, l))
            for k in ('is_root', 'inhibition'):
                equal(sorted(st.get_values(u, k)), sorted(r[2] for r in m.struct if r[0] == u and r[1] == k),
                      'structure %s of %s' % (k, u))
            sp = {}
            for r in m.struct:
                if r[0] == u:
                    sp.setdefault(r[:2], []).append(r[2])
            equal({k: sorted(v) for k, v in st.get_values_partial(u).items()}, {k: sorted(v) for k, v in sp.items()},
                  'structure of %s' % u)
        # listings
        there = sorted({r[0] for r in m.desc})
        if there:
            equal(sorted(db.list()), there, 'list of the USLs')
        for kind in ('morpheme', 'polymorpheme', 'lexeme', 'word'):
            if os.path.isdir(os.path.join(d, kind)):
                equal(sorted(db.list(kind)), [t for t in there if canon(t)[1] == kind], 'list of the %ss' % kind)
                for plural in (True, False):
                    if os.path.isdir(os.path.join(d, kind, 'paradigm' if plural else 'singular')):
                        equal(sorted(db.list(kind, paradigm=plural)),
                              [t for t in there if canon(t)[1] == kind and canon(t)[2] == plural],
                              'list of the %s %ss' % ('plural' if plural else 'singular', kind))
        # one file only, and its text
        for u in usls[:3]:
            p = db.path_of(u)
            if os.path.isfile(p):
                rel = os.path.relpath(p, d)
                if "\\" not in rel:
                    got = db.get_descriptors(files_list=[rel])
                    equal(sorted((i, l, k, v) for (i, l, k), (v,) in got.df.iterrows()),
                          sorted(r for r in m.desc if r[0] == u), 'descriptors of the file of %s' % u)
                text = open(p, encoding='utf8', newline='').read()
                got = Descriptors.from_csv_string(text)
                equal(sorted((i, l, k, v) for i, x in got.items() for k, y in x.items() for l, z in y.items() for v in z),
                      sorted(r for r in m.desc if r[0] == u), 'descriptors read from the text of the file of %s' % u)
    return bool(m.desc or m.struct)


@case('P18')
def store_refused(ops, bad):
    """a refused operation changes nothing"""
    with scratch() as d:
        db = IEMLDatabase(d, use_cache=False)
        m = Model()
        for op in ops:
            apply(db, m, op)
        k, a = bad[0], bad[1:]
        f = {'add': db.add_descriptor, 'rem': db.remove_descriptor, 'sadd': db.add_structure,
             'srem': db.remove_structure}.get(k)
        if f is None:
            f = getattr(db.get_descriptors() if k.startswith('get') else db.get_structure(), k[1:] if k[0] == 's' else k)
        check(raises(lambda: f(*a)), '%s is refused', bad)
        compare_store(db, m, USLS, 'after the refused %s' % bad)
    return True


VALUES = ['x', 'un', 'deux mots', 'a"b', '"', '""', 'a""b', '"x" fr', "l'eau", 'a, b', 'é à ü', '\u65e5\u672c', 'NA', 'null',
          'nan', 'None', 'True', '12', '1.0', '-', '  x  ', 'a\tb', 'a\nb', 'x\\y', 'x y "z"', '#x', '%s', '{}', 'x" en comments "y',
          'fr translations', '0012', 'a  b', 'un ', 'X', 'inf', ';', "'", 'xx', 'a', '', '  ', 'a\rb', 'a\r\nb', '\r']


def some_value(rng):
    if rng.random() < 0.7:
        return rng.choice(VALUES)
    return ''.join(rng.choice('ab "\',.;#\\tné\u2028\r') for _ in range(rng.randint(1, 6)))


def some_op(rng, usls, used):
    i = rng.choice(usls)
    l, d = rng.choice(LANGUAGES), rng.choice(DESCRIPTORS_CLASS)
    k = rng.random()
    if k < 0.5:
        v = some_value(rng)
        used.append((i, l, d, v))
        return ['add' if rng.random() < 0.9 else 'addobj', i, l, d, v]
    if k < 0.7:
        if used and rng.random() < 0.7:
            i, l, d, v = rng.choice(used)
        else:
            v = some_value(rng)
        j = rng.random()
        return ['rem', i, l if rng.random() < 0.7 else None, d if rng.random() < 0.7 else None,
                v if rng.random() < 0.6 else None]
    if k < 0.9:
        j = rng.random()
        if j < 0.4:
            return ['sadd', i, 'is_root', rng.choice([True, False, 'True', 'false', 'FALSE'])] if False else \
                ['sadd', i, 'is_root', rng.choice([True, False])]
        return ['sadd', i, 'inhibition', rng.choice(INHIBITABLE_RELATIONS)]
    j = rng.random()
    if j < 0.2:
        return ['srem', i]
    if j < 0.4:
        return ['srem', i, rng.choice(['is_root', 'inhibition'])]
    return ['srem', i, 'inhibition', rng.choice(INHIBITABLE_RELATIONS)] if j < 0.8 else \
        ['srem', i, 'is_root', rng.choice(['True', 'False'])]


def pool(rng):
    usls = rng.sample(USLS, rng.randint(1, 5))
    if rng.random() < 0.3:
        usls += rng.sample(long_words(8), 3)
    if rng.random() < 0.4:
        usls += ['a.', 'a. b.', 'b. a.']
    return usls


@generator('P18')
def g18(rng, tier):
    n = 100 if tier == 'quick' else 2500
    for i in range(n):
        usls, used = pool(rng), []
        ops = [some_op(rng, usls, used) for _ in range(rng.choice([3, 8, 15, 25]))]
        yield store_history, (ops, rng.random() < 0.5)
        if i % 4 == 0:
            usls2, used2 = rng.sample(long_words(8)[:5], rng.randint(2, 4)), []
            yield store_history, ([some_op(rng, usls2, used2) for _ in range(rng.choice([4, 8, 15]))], rng.random() < 0.5)
        if i % 3 == 0:
            u = rng.choice(usls)
            bad = rng.choice([
                ['add', u, 'de', 'translations', 'x'], ['add', u, 'fr', 'label', 'x'], ['add', u, 'fr', 'translations', 12],
                ['add', u, 'fr', 'translations', None], ['add', u, None, 'translations', 'x'],
                ['add', u, 'fr', None, 'x'], ['add', 'a.b', 'fr', 'comments', 'x'],
                ['add', None, 'fr', 'comments', 'x'],
                ['rem', u, 'xx'], ['rem', u, 'fr', 'trans'], ['rem', 'a.+', 'fr'], ['rem', u, 'fr', 'comment', 'x'],
                ['sadd', u, 'root', True], ['sadd', u, 'inhibition', 'contains'], ['sadd', u, 'is_root', 'yes'],
                ['sadd', u, 'is_root', '12'], ['sadd', None, 'is_root', True], ['sadd', u, None, True],
                ['srem', u, 'foo'], ['srem', u, 'inhibition', 'father'], ['srem', 'foo', 'is_root'],
                ['get_values', u, 'de', 'translations'], ['get_values', u, 'fr', 'foo'], ['get_values', u, None, 'comments'],
                ['sget_values', u, 'foo'], ['get_values_partial', u, 'de']])
            yield store_refused, (ops, bad)


# ------------------------------------------------------------------ git helpers
def init_git(folder, files):
    r = pygit2.init_repository(folder, initial_head='master')
    write_files(folder, files)
    r.index.add_all()
    r.index.write()
    r.create_commit('HEAD', SIG, SIG, 'init', r.index.write_tree(), [])
    return r


def write_files(folder, files):
    for p, c in files.items():
        q = os.path.join(folder, p)
        if c is None:
            if os.path.lexists(q):
                os.remove(q)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as fp:
                fp.write(c.encode('utf8'))


def tree_files(repo, commit):
    res = {}

    def rec(tree, prefix):
        for e in tree:
            if e.type_str == 'tree':
                rec(repo[e.id], prefix + e.name + '/')
            else:
                res[prefix + e.name] = repo[e.id].data.decode('utf8')
    rec(repo[commit].tree, '')
    return res


def disk_files(folder):
    res = {}
    for base, dirs, files in os.walk(folder):
        if '.git' in dirs:
            dirs.remove('.git')
        for f in files:
            p = os.path.join(base, f)
            if f.startswith('.') and '-cache.' in f:
                continue
            res[os.path.relpath(p, folder)] = open(p, 'rb').read().decode('utf8')
    return res


def n_commits(repo):
    return sum(1 for _ in repo.walk(repo.head.target))


class Boom(Exception):
    pass


class BigBoom(BaseException):
    pass


def git_ops(folder, op):
    k, p = op[0], os.path.join(folder, op[1])
    if k == 'w':
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(op[2])
    elif k == 'a':
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'a').write(op[2])
    elif k == 'd':
        if os.path.isfile(p):
            os.remove(p)
    elif k == 'mv':
        q = os.path.join(folder, op[2])
        if os.path.isfile(p) and not os.path.exists(q):
            os.makedirs(os.path.dirname(q), exist_ok=True)
            os.rename(p, q)
    elif k == 'stage':
        r = pygit2.Repository(folder)
        if os.path.isfile(p):
            r.index.add(op[1])
            r.index.write()
    elif k == 'rmtree':
        shutil.rmtree(p, True)


# ------------------------------------------------------------------ P19
@case('P19')
def transaction(files, transactions):
    """transactions: [[ops, failing point or None, kind of failure, author, message], ...] one after another"""
    with scratch() as d:
        folder = os.path.join(d, 'r')
        init_git(folder, files)
        g = GitInterface(origin=folder, folder=folder, credentials=None)
        for ops, fail, kind, author, message in transactions:
            repo = pygit2.Repository(folder)
            head, before, n = repo.head.target, disk_files(folder), n_commits(repo)
            equal(before, tree_files(repo, head), 'files before the transaction')
            sig = pygit2.Signature(author, 'x@y.z') if kind != 'signature' else 'not a signature'
            exc = {'Boom': Boom, 'BigBoom': BigBoom, 'KeyError': KeyError, 'signature': None}[kind]
            after = None
            raised = None
            try:
                with g.commit(sig, message):
                    for i, op in enumerate(ops):
                        if i == fail and exc:
                            raise exc('at %d' % i)
                        git_ops(folder, op)
                    if fail is not None and fail >= len(ops) and exc:
                        raise exc('at the end')
                    after = disk_files(folder)
            except BaseException as e:
                if not isinstance(e, (Boom, BigBoom, KeyError)) and kind != 'signature':
                    raise
                raised = e
            repo = pygit2.Repository(folder)
            what = 'transaction %s' % [ops, fail, kind]
            if fail is not None and exc:
                check(isinstance(raised, exc), '%s: the exception goes through (%r)', what, raised)
            failed = (fail is not None and exc) or (kind == 'signature' and after != before)
            if failed:
                check(raised is not None, '%s: the failure is not hidden', what)
                equal(str(repo.head.target), str(head), '%s failed: head' % what)
                equal(disk_files(folder), before, '%s failed: files' % what)
                equal(tree_files(repo, repo.head.target), before, '%s failed: committed files' % what)
                equal(dict(repo.status()), {}, '%s failed: status' % what)
            else:
                check(raised is None, '%s raised %r', what, raised)
                equal(disk_files(folder), after, '%s: files' % what)
                if after == before:
                    equal(str(repo.head.target), str(head), '%s changes nothing: head' % what)
                else:
                    c = repo[repo.head.target]
                    equal([str(p.id) for p in c.parents], [str(head)], '%s: parents of the commit' % what)
                    equal(n_commits(repo), n + 1, '%s: number of commits' % what)
                    equal(tree_files(repo, c.id), after, '%s: committed files' % what)
                    equal((c.author.name, c.author.email, c.committer.name, c.message), (author, 'x@y.z', author, message),
                          '%s: author and message' % what)
                    equal(repo.head.name, 'refs/heads/master', 'branch')
                equal(dict(repo.status()), {}, '%s: status' % what)
    return True


@case('P19')
def transaction_dirty(files, dirt, ops):
    """a transaction does not start on a modified working tree, and leaves it as it is"""
    with scratch() as d:
        folder = os.path.join(d, 'r')
        init_git(folder, files)
        g = GitInterface(origin=folder, folder=folder, credentials=None)
        for op in dirt:
            git_ops(folder, op)
        dirty = disk_files(folder)
        if dirty == files:
            return False
        repo = pygit2.Repository(folder)
        head = repo.head.target
        ran = []

        def go():
            with g.commit(SIG, 'm'):
                ran.append(1)
                for op in ops:
                    git_ops(folder, op)
        check(raises(go), 'a transaction on a modified working tree is refused')
        equal(ran, [], 'the body of the refused transaction')
        equal(disk_files(folder), dirty, 'files after the refused transaction')
        equal(str(pygit2.Repository(folder).head.target), str(head), 'head after the refused transaction')
        # reset cleans it
        g.reset()
        equal(disk_files(folder), files, 'files after reset')
        equal(dict(pygit2.Repository(folder).status()), {}, 'status after reset')
    return True


PATHS = ['a.desc', 'b.desc', 'm/a.desc', 'm/b.ieml', 'm/s/x y.desc', 'p/é.desc', 'README', 'm/s/.hidden', 'w/"q".desc']


def some_git_ops(rng, n):
    ops = []
    for _ in range(n):
        p = rng.choice(PATHS)
        k = rng.random()
        if k < 0.35:
            ops.append(['w', p, rng.choice(['1\n', '2\n', 'x y\n', '', 'long\n' * 30])])
        elif k < 0.55:
            ops.append(['a', p, rng.choice(['1\n', '2\n', 'é\n'])])
        elif k < 0.8:
            ops.append(['d', p])
        elif k < 0.92:
            ops.append(['mv', p, rng.choice(PATHS + ['n/new.desc'])])
        elif k < 0.97:
            ops.append(['rmtree', rng.choice(['m', 'p', 'm/s'])])
        else:
            ops.append(['stage', p])
    return ops


@generator('P19')
def g19(rng, tier):
    n = 110 if tier == 'quick' else 2000
    for i in range(n):
        files = {p: rng.choice(['1\n', 'abc\ndef\n', 'z\n' * 20]) for p in rng.sample(PATHS, rng.randint(1, 6))}
        if rng.random() < 0.8:
            files['README'] = 'r\n'
        ts = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            ops = some_git_ops(rng, rng.choice([0, 1, 2, 4, 7]))
            fail, kind = None, 'Boom'
            if rng.random() < 0.45:
                fail, kind = rng.randint(0, len(ops)), rng.choice(['Boom', 'BigBoom', 'KeyError'])
            elif rng.random() < 0.12:
                kind = 'signature'
            ts.append([ops, fail, kind, rng.choice(['n', 'é x']), rng.choice(['m', 'message\nlong', 'é'])])
        yield transaction, (files, ts)
        if i % 4 == 0:
            yield transaction_dirty, (files, some_git_ops(rng, rng.randint(1, 3)), some_git_ops(rng, 2))


# ------------------------------------------------------------------ P20
def desc_text(usl, lines):
    return ''.join('"%s" %s %s "%s"\n' % (usl, l, d, v) for l, d, v in lines)


def desc_value(lines):
    res = {d: {l: [] for l in LANGUAGES} for d in DESCRIPTORS_CLASS}
    for l, d, v in lines:
        res[d][l].append(v)
    return res


PULL_PATHS = {'a.': 'morpheme/singular/a..desc', 'b.': 'morpheme/singular/b..desc', 'O:M:.': 'morpheme/paradigm/O:M:..desc',
              'a. b.': 'polymorpheme/singular/a. b./a. b..desc', 'wa.': 'morpheme/singular/wa..desc'}


def content(kind, usl, lines):
    if lines is None:
        return None
    if kind == 'desc':
        return desc_text(usl, lines)
    return ''.join('"%s" %s "%s"\n' % (usl, k, v) for k, v in lines)


@case('P20')
def pull(base, local, remote, struct, kind):
    """base, local, remote: {usl: lines or null}; struct: the same for the structure file of the paradigm O:M:. as
    [base, local, remote]; kind: which sides have commits"""
    spath = 'morpheme/paradigm/O:M:..ieml'

    def files(side, i):
        res = {PULL_PATHS[u]: content('desc', u, l) for u, l in side.items()}
        res[spath] = content('ieml', 'O:M:.', struct[i])
        return res
    with scratch() as d:
        A, B = os.path.join(d, 'A'), os.path.join(d, 'B')
        fb, fl, fr = files(base, 0), files(local, 1), files(remote, 2)
        fb['README'] = 'r\n'
        init_git(A, {p: c for p, c in fb.items() if c is not None})
        shutil.copytree(A, B)

        def advance(folder, f):
            write_files(folder, f)
            r = pygit2.Repository(folder)
            r.index.add_all()
            for p, c in f.items():
                if c is None:
                    try:
                        r.index.remove(p)
                    except (KeyError, OSError):
                        pass
            r.index.write()
            r.create_commit('HEAD', SIG, SIG, 'edit %s' % os.path.basename(folder), r.index.write_tree(), [r.head.target])
        if 'l' in kind:
            advance(A, fl)
        else:
            fl = fb
        if 'r' in kind:
            advance(B, fr)
        else:
            fr = fb
        g = GitInterface(origin=B, folder=A, credentials=None)
        g.add_remote('B', os.path.join(B, '.git'))
        ra, rb = pygit2.Repository(A), pygit2.Repository(B)
        ha, hb = ra.head.target, rb.head.target
        before = disk_files(A)
        conflicts = g.pull('B')
        ra = pygit2.Repository(A)
        equal(dict(ra.status()), {}, 'status after the pull')
        check(ra.index.conflicts is None, 'no conflict is left in the index')
        after = disk_files(A)
        equal(tree_files(ra, ra.head.target), after, 'committed files')
        equal(str(pygit2.Repository(B).head.target), str(hb), 'head of the remote')
        if 'r' not in kind:
            equal((str(ra.head.target), after, conflicts), (str(ha), before, {}), 'pull of an up to date repository')
            return True
        if 'l' not in kind:
            equal((str(ra.head.target), after, conflicts), (str(hb), tree_files(rb, hb), {}), 'pull when only the remote moved')
            return True
        c = ra[ra.head.target]
        equal([str(p.id) for p in c.parents], [str(ha), str(hb)], 'parents of the merge')
        usl_of = {p: u for u, p in PULL_PATHS.items()}
        reported = set()
        for p in sorted(set(fb) | set(fl) | set(fr)):
            b, l, r = fb.get(p), fl.get(p, fb.get(p)), fr.get(p, fb.get(p))
            got = after.get(p)
            u = usl_of.get(p)
            if l == r or r == b:
                equal(got, l, 'pulled file %s' % p)
                exp_conflict = False
            elif l == b:
                equal(got, r, 'pulled file %s' % p)
                exp_conflict = False
            elif u is None:
                if got != r:
                    merged(b, l, r, got, p)
                continue
            else:
                exp_conflict = u in conflicts
                if exp_conflict:
                    equal(got, r, 'file %s in conflict' % p)
                    equal(conflicts[u], desc_value(local[u] or []), 'conflict reported for %s' % u)
                    check(not far_apart(b, l, r), 'changes of %s in distant lines are not a conflict', u)
                else:
                    merged(b, l, r, got, p)
            if u is not None:
                equal(u in conflicts, exp_conflict, 'conflict of %s' % u)
                if exp_conflict:
                    reported.add(u)
        equal(set(conflicts), reported, 'conflicts')
        equal(set(after), {p for p in after if p in set(fb) | set(fl) | set(fr)}, 'files after the pull')
        # pulling again changes nothing
        again = g.pull('B')
        equal((again, str(pygit2.Repository(A).head.target)), ({}, str(ra.head.target)), 'second pull')
    return True


def far_apart(b, l, r):
    """local changes only the first lines, remote only the last lines"""
    if b is None or l is None or r is None:
        return False
    b, l, r = b.splitlines(), l.splitlines(), r.splitlines()
    n = len(b)
    if n < 8:
        return False
    i = n // 2
    return l[-(n - 2):] == b[2:] and r[:n - 2] == b[:n - 2] and len(l) >= n - 2 and len(r) >= n - 2


def merged(b, l, r, got, p):
    if got is None or b is None:
        raise Violation('file %s of both sides: got %r, neither of local %r, remote %r' % (p, got, l, r))
    cb, cl, cr, cg = [collections.Counter((x or '').splitlines()) for x in (b, l, r, got)]
    for line in set(cb) | set(cl) | set(cr) | set(cg):
        x, y, z, w = cb[line], cl[line], cr[line], cg[line]
        if y == x:
            ok = w == z
        elif z == x:
            ok = w == y
        else:
            ok = min(y, z, y + z - x) <= w <= max(y, z, y + z - x)
        if not ok:
            raise Violation('merge of %s: line %r is %d times there (base %d, local %d, remote %d)' % (p, line, w, x, y, z))


def some_lines(rng, n):
    return [[rng.choice(LANGUAGES), rng.choice(DESCRIPTORS_CLASS), rng.choice(['x', 'y', 'un', 'deux', 'NA', 'l\'eau', 'z%d' % rng.randint(0, 9)])]
            for _ in range(n)]


def edit_lines(rng, lines):
    k = rng.random()
    if lines is None:
        return some_lines(rng, rng.randint(1, 4))
    if k < 0.12:
        return None
    lines = [list(l) for l in lines]
    for _ in range(rng.choice([1, 1, 2])):
        j = rng.random()
        if j < 0.4 and lines:
            i = rng.choice([0, len(lines) - 1, rng.randrange(len(lines))])
            lines[i] = some_lines(rng, 1)[0]
        elif j < 0.65:
            lines.insert(rng.choice([0, len(lines), rng.randint(0, len(lines))]), some_lines(rng, 1)[0])
        elif len(lines) > 1:
            del lines[rng.choice([0, -1, rng.randrange(len(lines))])]
    return lines


@generator('P20')
def g20(rng, tier):
    n = 90 if tier == 'quick' else 1500
    for i in range(n):
        usls = list(PULL_PATHS)
        base = {u: (some_lines(rng, rng.choice([1, 3, 9, 12])) if rng.random() < 0.75 else None) for u in usls}
        local, remote = {}, {}
        for u in usls:
            k = rng.random()
            local[u] = edit_lines(rng, base[u]) if rng.random() < 0.5 else base[u]
            remote[u] = edit_lines(rng, base[u]) if rng.random() < 0.5 else base[u]
            if k < 0.1:
                remote[u] = local[u]
            if k > 0.8 and base[u] and len(base[u]) >= 9:
                local[u] = some_lines(rng, 1) + base[u][1:]
                remote[u] = base[u][:-1] + some_lines(rng, 1)
        # no side both creates and deletes a file (it could be taken for a renaming)
        for side in (local, remote):
            if any(base[u] is None and side[u] is not None for u in usls):
                for u in usls:
                    if base[u] is not None and side[u] is None:
                        side[u] = base[u]
        s0 = [['is_root', 'True'], ['inhibition', 'opposed']] if rng.random() < 0.6 else None
        struct = [s0, s0, s0]
        if s0:
            for j in (1, 2):
                if rng.random() < 0.35:
                    struct[j] = s0 + [['inhibition', rng.choice(['twin', 'crossed'])]]
        kind = rng.choice(['lr', 'lr', 'lr', 'lr', 'l', 'r', ''])
        yield pull, (base, local, remote, struct, kind)


# ------------------------------------------------------------------ P21
class Reader:
    """an object with a cached result over the files of a folder"""
    def __init__(self, folder, cache_folder, use_cache):
        self.folder, self.cache_folder, self.use_cache = folder, cache_folder, use_cache

    def snapshot(self):
        return {p: c for p, c in disk_files(self.folder).items() if p.endswith('.desc') or p.endswith('.ieml')}

    @cache_results_watch_files("**/*.[di]e[sm][cl]", 'snap')
    def read(self):
        return self.snapshot()

    @cache_results_watch_files("m/*", 'sub')
    def read_sub(self):
        return {p: c for p, c in disk_files(self.folder).items() if p.startswith('m/') and '/' not in p[2:]}


@case('P21')
def cache_files(steps, shared):
    with scratch() as d:
        folder = os.path.join(d, 'db')
        os.makedirs(os.path.join(folder, 'm'))
        cf = folder if shared else os.path.join(d, 'cache')
        os.makedirs(cf, exist_ok=True)
        for n, s in enumerate(steps):
            if s[0] == 'garbage':
                for f in os.listdir(cf):
                    if '-cache.' in f:
                        open(os.path.join(cf, f), 'wb').write(b'garbage')
            elif s[0] == 'stray':
                open(os.path.join(cf, '.snap-cache.0123'), 'wb').write(b'garbage')
            elif s[0] == 'read':
                r = Reader(folder, cf, s[1])
                cur = r.snapshot()
                equal(r.read(), cur, 'cached result after %s' % steps[:n + 1])
                equal(r.read(), cur, 'cached result, again, after %s' % steps[:n + 1])
                exp = {p: c for p, c in disk_files(folder).items() if p.startswith('m/') and '/' not in p[2:]}
                equal(r.read_sub(), exp, 'cached result of m/* after %s' % steps[:n + 1])
            else:
                git_ops(folder, s)
    return True


def list_view(l):
    res = []
    for e in l:
        e = dict(e)
        for k in DESCRIPTORS_CLASS:
            if k in e:
                e[k] = {a: sorted(b) for a, b in e[k].items()}
        res.append(e)
    return sorted(res, key=lambda e: (e['index'], e['ieml']))


def dict_view(d):
    return [str(s) for s in d.scripts], {k: sorted(observed(d, k)) for k in RELATIONS}, sorted(map(str, d.tables.roots))


@case('P21')
def cache_database(steps, shared):
    """the dictionary and the list of USLs, cached, against the same without cache"""
    with scratch() as d:
        folder = os.path.join(d, 'db')
        os.makedirs(folder)
        cf = None if shared else os.path.join(d, 'cache')
        db = IEMLDatabase(folder, use_cache=False)
        db.add_structure('O:M:.', 'is_root', True)
        db.add_descriptor('O:M:.', 'fr', 'translations', 'x')
        m = Model()
        for n, s in enumerate(steps):
            if s[0] == 'read':
                cached = IEMLDatabase(folder, cache_folder=cf, use_cache=True)
                f, view = ('get_dictionary', dict_view) if s[1] == 'dictionary' else ('get_list', list_view)
                try:
                    exp = view(getattr(db, f)())
                except Exception as e:
                    check(raises(lambda: getattr(cached, f)()), '%s fails, but not when cached, after %s', f, steps[:n + 1])
                    continue
                equal(view(getattr(cached, f)()), exp, '%s after %s' % (s[1], steps[:n + 1]))
            else:
                apply(db, m, s)
    return True


@generator('P21')
def g21(rng, tier):
    n = 150 if tier == 'quick' else 3000
    paths = ['m/a.desc', 'm/b.desc', 'm/ab.desc', 'm/a.ieml', 'a.desc', 'p/q/a.desc', 'm/ba.desc', 'x.txt', 'm/a.desc1']
    contents = ['', 'a', 'b', 'ab', 'm/b.desc', 'a.desc', 'aa', 'm/a.desca', '\n']
    for i in range(n):
        steps = []
        for _ in range(rng.randint(4, 14)):
            k = rng.random()
            p = rng.choice(paths)
            if k < 0.4:
                steps.append(['read', rng.random() < 0.9])
            elif k < 0.65:
                steps.append(['w', p, rng.choice(contents)])
            elif k < 0.8:
                steps.append(['d', p])
            elif k < 0.93:
                steps.append(['mv', p, rng.choice(paths)])
            elif k < 0.97:
                steps.append(['garbage'])
            else:
                steps.append(['stray'])
        steps.append(['read', True])
        yield cache_files, (steps, rng.random() < 0.5)
        if i % 4 == 0:
            usls = ['O:M:.', 'U:M:.', 'O:S:.', 'j.', 'y.', 'M:O:.', 'U:S:+B:.', 'y. o.', '()(y.)', 'wo.']
            steps = [['read', 'dictionary'], ['read', 'list']]
            for _ in range(rng.randint(3, 8)):
                k = rng.random()
                u = rng.choice(usls)
                if k < 0.35:
                    steps.append(['read', rng.choice(['dictionary', 'list'])])
                elif k < 0.6:
                    steps.append(['add', u, rng.choice(LANGUAGES), rng.choice(DESCRIPTORS_CLASS), rng.choice(VALUES[:20])])
                elif k < 0.75 and u != 'O:M:.':
                    steps.append(['rem', u, None, None, None])
                elif k < 0.85:
                    steps.append(['sadd', 'O:M:.', 'inhibition', rng.choice(['opposed', 'associated', 'twin'])])
                elif k < 0.93:
                    steps.append(['srem', 'O:M:.', 'inhibition'])
                else:
                    steps.append(['sadd', 'M:O:.', 'is_root', True])
            steps += [['read', 'dictionary'], ['read', 'list']]
            yield cache_database, (steps, rng.random() < 0.5)


# ------------------------------------------------------------------ P23
def lang(d):
    return {l: list(d.get(l, [])) for l in LANGUAGES}


class Editor:
    """what each edit is asked to do: a model of the records"""
    def __init__(self, desc, struct):
        self.m = Model()
        self.m.desc, self.m.struct = list(desc), list(struct)

    def roots(self):
        return [R.parse(i) for i, k, v in self.m.struct if k == 'is_root' and v == 'True']


@case('P23')
def edits(initial, steps, cache):
    """initial: [[root, [inhibitions]], ...] recipes; steps: edits. Every edit either does exactly what it is asked in one
    commit or is refused and changes nothing"""
    roots = [R.ref(r) for r, _ in initial]
    if any(set(a.ss) & set(b.ss) for a, b in itertools.combinations(roots, 2)):
        return False
    with scratch() as d:
        folder = os.path.join(d, 'r')
        os.makedirs(folder)
        db = IEMLDatabase(folder, use_cache=False)
        for (r, inh), x in zip(initial, roots):
            db.add_structure(x.text, 'is_root', True)
            for k in inh:
                db.add_structure(x.text, 'inhibition', k)
            db.add_descriptor(x.text, 'fr', 'translations', 'racine %s' % x.text)
        init_git(folder, {'README': 'x\n'})
        g = GitInterface(origin=folder, folder=folder, credentials=None)
        t = DBTransactions(g, SIG, use_cache=cache, cache_folder=os.path.join(d, 'cache') if cache else None)
        if cache:
            os.makedirs(os.path.join(d, 'cache'))
        for n, step in enumerate(steps):
            e = Editor(all_records(db), all_structure(db))
            dic = IEMLDatabase(folder, use_cache=False).get_dictionary()
            repo = pygit2.Repository(folder)
            head, files, count = repo.head.target, disk_files(folder), n_commits(repo)
            exp = EDITS[step[0]](e.m, dic, *step[1:])   # None: refused; else (returned value or ANY, max commits)
            what = '%s (after %s)' % (step, steps[:n])
            err, res = None, None
            try:
                res = run_edit(t, step)
            except Exception as ex:
                err = ex
            repo = pygit2.Repository(folder)
            equal(dict(repo.status()), {}, 'status after %s' % what)
            if exp is None:
                check(err is not None, '%s is refused', what)
                equal(str(repo.head.target), str(head), 'head after the refused %s' % what)
                equal(disk_files(folder), files, 'files after the refused %s' % what)
                continue
            if err is not None:
                raise Violation('%s is refused: %r' % (what, err))
            equal(all_records(db), sorted(e.m.desc), 'descriptors after %s' % what)
            equal(all_structure(db), sorted(e.m.struct), 'structure after %s' % what)
            more = n_commits(repo) - count
            changed = disk_files(folder) != files
            equal(tree_files(repo, repo.head.target), disk_files(folder), 'committed files after %s' % what)
            if exp == 1:
                equal(more, 1 if changed else 0, 'number of commits of %s' % what)
            else:
                check(more <= exp, 'number of commits of %s: %d', what, more)
            if more:
                c = repo[repo.head.target]
                equal((c.author.name, c.author.email), (SIG.name, SIG.email), 'author of %s' % what)
                if exp == 1:
                    equal([str(p.id) for p in c.parents], [str(head)], 'parent of the commit of %s' % what)
    return True


def obj(text):
    return IEMLParser().parse(text)


def run_edit(t, step):
    k, a = step[0], step[1:]
    if k == 'root':
        return t.create_root_paradigm(script(a[0]), a[1], dict(a[2]), dict(a[3]))
    if k == 'paradigm':
        return t.add_morpheme_paradigm(script(a[0]), dict(a[1]), dict(a[2]))
    if k == 'del_root':
        return t.delete_morpheme_root_paradigm(script(a[0])) if a[1] else \
            t.delete_morpheme_root_paradigm(script(a[0]), empty_descriptors=False)
    if k == 'del':
        return t.delete_morpheme_paradigm(script(a[0]))
    if k == 'update':
        return t.update_morpheme_paradigm(script(a[0]), script(a[1]))
    if k == 'describe':
        return t.set_descriptors(obj(a[0]), a[1], dict(a[2]))
    if k == 'inhibit':
        return t.set_inhibitions(script(a[0]), a[1])
    if k == 'migrate':
        mp = dict(a[0])

        def f(u):
            if mp.get(str(u)) == 'FAIL':
                raise Boom()
            return obj(mp[str(u)]) if str(u) in mp else u
        return t.update_all_ieml(f, 'm')


def factorized(text):
    return str(factorize(script(text))) == text


def root_of(dic):
    """{text of singular sequence: text of root}"""
    return {str(q): str(r) for r in dic.tables.roots for q in r.singular_sequences}


def put(m, u, tr, co):
    for l in LANGUAGES:
        for v in tr.get(l, []):
            m.add(u, l, 'translations', v)
        for v in co.get(l, []):
            m.add(u, l, 'comments', v)


def e_root(m, dic, text, inh, tr, co):
    x = R.parse(text)
    if not factorized(text) or x.card == 1 or any(r[0] == text for r in m.desc):
        return None
    ro = root_of(dic)
    if any(q.text in ro for q in x.ss) or any(k not in INHIBITABLE_RELATIONS for k in inh):
        return None
    tabs = [t for t, _, _, _ in table_ref(x)]
    tabs = [t for t in tabs if t != x]
    if any(not factorized(t.text) for t in tabs):
        raise Skip('a table which is not factorized')
    m.remove_s(text, 'is_root')
    m.add_s(text, 'is_root', True)
    for k in inh:
        m.add_s(text, 'inhibition', k)
    put(m, text, tr, co)
    for i, t in enumerate(tabs):
        if t.card == 1:
            raise Skip('a table with a single cell')
        m.remove(t.text)
        m.remove_s(t.text)
        m.add_s(t.text, 'is_root', False)
        put(m, t.text, {l: [v + str(i) for v in vs] for l, vs in tr.items()}, {l: [v + str(i) for v in vs] for l, vs in co.items()})
    return 1 + len(tabs)


def e_paradigm(m, dic, text, tr, co):
    x = R.parse(text)
    if not factorized(text) or x.card == 1 or text in {str(s) for s in dic.scripts}:
        return None
    ro = root_of(dic)
    if any(q.text not in ro for q in x.ss) or len({ro[q.text] for q in x.ss}) != 1:
        return None
    if any(l not in tr or l not in co for l in LANGUAGES):
        return None
    m.remove(text)
    m.remove_s(text)
    m.add_s(text, 'is_root', False)
    put(m, text, tr, co)
    return 1


def e_del_root(m, dic, text, empty):
    if not factorized(text) or text not in {str(r) for r in dic.tables.roots}:
        return None
    x = R.parse(text)
    m.remove_s(text)
    if empty:
        for s in dic.scripts:
            if set(R.parse(str(s)).ss) <= set(x.ss):
                m.remove(str(s))
    return 1


def e_del(m, dic, text):
    x = R.parse(text)
    if not factorized(text) or x.card == 1 or text not in {str(s) for s in dic.scripts}:
        return None
    m.remove_s(text)
    m.remove(text)
    return 1


def e_update(m, dic, old, new):
    if not factorized(old) or not factorized(new):
        return None
    if old == new:
        return 1
    xo, xn = R.parse(old), R.parse(new)
    if xo.card == 1 and xn.card == 1:
        return None
    there = {str(s) for s in dic.scripts}
    if old not in there or new in there:
        return None
    vals = [r[2] for r in m.struct if r[0] == old and r[1] == 'is_root']
    if len(vals) > 1 and len(set(vals)) > 1:
        raise Skip('two values of is_root')
    is_root = vals and vals[0] == 'True'
    ro = root_of(dic)
    cand = {ro[q.text] for q in xn.ss if q.text in ro}
    if not is_root and any(q.text not in ro for q in xn.ss):
        return None
    if len(cand) != 1:
        return None
    if is_root and not set(xo.ss) <= set(xn.ss):
        return None
    olds = [r for r in m.struct if r[0] == old]
    oldd = [r for r in m.desc if r[0] == old]
    m.remove_s(old)
    m.remove(old)
    if is_root:
        m.add_s(old, 'is_root', False)
        for _, k, v in olds:
            m.add_s(new, k, v)
    else:
        m.add_s(new, 'is_root', False)
    for _, l, d, v in oldd:
        m.add(new, l, d, v)
        if is_root:
            m.add(old, l, d, '(translation migrated to %s) ' % new + v)
    return 1


def e_describe(m, dic, u, d, value):
    value = {l: value.get(l, []) for l in LANGUAGES}
    if any(not isinstance(v, str) for l in LANGUAGES for v in value[l]) or d not in DESCRIPTORS_CLASS:
        return None
    if canon(u)[1] == 'morpheme' and not factorized(canon(u)[0]):
        return None
    m.remove(u, None, d)
    for l in LANGUAGES:
        for v in value[l]:
            m.add(u, l, d, v)
    return 1


def e_inhibit(m, dic, u, inh):
    if not factorized(u) or u not in {str(r) for r in dic.tables.roots} or any(k not in INHIBITABLE_RELATIONS for k in inh):
        return None
    old = {r[2] for r in m.struct if r[0] == u and r[1] == 'inhibition'}
    for k in old - set(inh):
        m.remove_s(u, 'inhibition', k)
    for k in inh:
        if k not in old:
            m.add_s(u, 'inhibition', k)
    return 1


def e_migrate(m, dic, mapping):
    mapping = dict(mapping)
    parser = IEMLParser(dictionary=dic)

    def readable(u):
        try:
            parser.parse(u)
            return True
        except CannotParse:
            return False
    ok = {i: readable(i) for i in {r[0] for r in m.desc}}
    if any(ok[i] and mapping.get(i) == 'FAIL' for i in ok):
        return None
    m.desc = [(canon(mapping.get(i, i))[0] if ok[i] else i, l, d, v) for i, l, d, v in m.desc]
    return 1


EDITS = dict(root=e_root, paradigm=e_paradigm, del_root=e_del_root, del_=e_del, update=e_update, describe=e_describe,
             inhibit=e_inhibit, migrate=e_migrate)
EDITS['del'] = e_del


def fact(x):
    """the factorized text of a reference script, or None"""
    try:
        t = str(factorize(script(x.text)))
    except Exception:
        return None
    try:
        y = R.parse(t)
        ok = set(y.ss) == set(x.ss) and disjoint(y) and table_ref(y) is not None
    except R.Rejected:
        return None
    return t if ok else None


def some_tr(rng, missing=0.0):
    res = {l: [rng.choice(VALUES[:34]) for _ in range(rng.choice([0, 1, 1, 2]))] for l in LANGUAGES}
    if rng.random() < missing:
        del res[rng.choice(LANGUAGES)]
    return res


@generator('P23')
def g23(rng, tier):
    n = 45 if tier == 'quick' else 900
    for i in range(n):
        roots, taken = [], set()
        tries = 0
        while len(roots) < rng.choice([1, 2, 2]) and tries < 60:
            tries += 1
            try:
                x = R.ref(some_root(rng, rng.choice([1, 1, 2])))
            except R.Rejected:
                continue
            if not 2 <= x.card <= 24 or not disjoint(x) or table_ref(x) is None or any(q.empty for q in x.ss):
                continue
            t = fact(x)
            if t is None or set(x.ss) & taken:
                continue
            taken |= set(x.ss)
            roots.append([to_recipe(R.parse(t)), [k for k in INHIBITABLE_RELATIONS if rng.random() < 0.2]])
        if not roots:
            continue
        known = [R.ref(r) for r, _ in roots]
        steps = []
        if i % 3 == 0:
            # a root that is part of a bigger script, with several inhibitions, is updated to it
            big = known[-1]
            inner = sub(rng, big)
            t = fact(inner) if inner is not None and inner.card > 1 else None
            if t is not None and t != big.text:
                roots[-1] = [to_recipe(R.parse(t)), rng.sample(list(INHIBITABLE_RELATIONS), rng.randint(0, 3))]
                known.append(R.parse(t))
                if rng.random() < 0.5:
                    steps.append(['describe', t, rng.choice(DESCRIPTORS_CLASS), some_tr(rng, 0.2)])
                steps.append(['update', t, big.text])
        while len(steps) < 7:
            k = rng.random()
            x = rng.choice(known)
            inner = sub(rng, x)
            it = fact(inner) if inner is not None else None
            q = rng.choice(x.ss).text
            if k < 0.15:
                try:
                    y = R.ref(some_root(rng, rng.choice([1, 1, 2]))) if rng.random() < 0.8 else (inner or x)
                except R.Rejected:
                    continue
                if y.card > 24 or not disjoint(y) or table_ref(y) is None or any(z.empty for z in y.ss):
                    continue
                t = fact(y)
                if t is None:
                    continue
                if rng.random() < 0.3:
                    steps.append(['describe', t, rng.choice(DESCRIPTORS_CLASS), some_tr(rng, 0.1)])
                steps.append(['root', t, [z for z in INHIBITABLE_RELATIONS if rng.random() < 0.2] +
                              (['contains'] if rng.random() < 0.1 else []), some_tr(rng), some_tr(rng)])
                known.append(R.parse(t))
            elif k < 0.4:
                t = it if rng.random() < 0.9 else x.text
                if t is None:
                    continue
                if rng.random() < 0.3:
                    steps.append(['describe', t, rng.choice(DESCRIPTORS_CLASS), some_tr(rng, 0.1)])
                steps.append(['paradigm', t, some_tr(rng, 0.1), some_tr(rng, 0.05)])
                known.append(R.parse(t))
            elif k < 0.47:
                steps.append(['del_root', x.text, rng.random() < 0.7])
            elif k < 0.57:
                steps.append(['del', x.text if rng.random() < 0.8 else q])
            elif k < 0.67:
                if it is None:
                    continue
                steps.append(['update', x.text, it] if rng.random() < 0.6 else ['update', it, x.text])
                known.append(R.parse(it))
            elif k < 0.85:
                u = rng.choice([x.text, x.text, q, 'a. b.', '()(%s)' % q, rng.choice(x.ss).text])
                steps.append(['describe', u, rng.choice(DESCRIPTORS_CLASS) if rng.random() < 0.95 else 'foo',
                              some_tr(rng, 0.2) if rng.random() < 0.8 else {}])
            elif k < 0.94:
                steps.append(['inhibit', x.text, [z for z in INHIBITABLE_RELATIONS if rng.random() < 0.3] +
                              (['contains'] if rng.random() < 0.1 else [])])
            else:
                us = rng.sample([x.text, q, rng.choice(x.ss).text, 'a. b.', '()(%s)' % q, '()(%s)' % rng.choice(x.ss).text], 4)
                us = list(dict.fromkeys(us))
                if len(us) < 3:
                    continue
                steps.append(['migrate', dict(zip(us, us[1:] + us[:1])) if rng.random() < 0.7 else {us[0]: us[1], us[2]: 'FAIL'}])
        yield edits, (roots, steps, rng.random() < 0.3)
