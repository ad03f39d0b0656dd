S = 'ieml/dictionary/script/script.py'
PM = 'ieml/usl/polymorpheme.py'
SF = 'ieml/usl/syntagmatic_function.py'
PA = 'ieml/usl/decoration/path.py'
TB = 'ieml/dictionary/table/table.py'
RE = 'ieml/dictionary/relation/relations.py'
DB = 'ieml/ieml_database/ieml_database.py'
GI = 'ieml/ieml_database/git_interface.py'
TX = 'ieml/ieml_database/transactions/DBTransaction.py'

GITDB = '''
import os, pygit2
W = os.environ['DEMO_WORK']
from ieml.ieml_database import IEMLDatabase
from ieml.ieml_database.git_interface import GitInterface
SIG = pygit2.Signature('a', 'a@b.c', 1, 0)

def make(name='up'):
    d = os.path.join(W, name)
    r = pygit2.init_repository(d, initial_head='master')
    open(os.path.join(d, 'README'), 'w').write('x')
    r.index.add('README'); r.index.write()
    r.create_commit('refs/heads/master', SIG, SIG, 'init', r.index.write_tree(), [])
    return d

def clone(up, name):
    return GitInterface(origin=up, credentials=None, folder=os.path.join(W, name))
'''

SEEDS = [
 dict(id='p01-shorter-canonical-first', property='P01',
      needs='two scripts of one layer >= 2 with the same cardinal whose children are sums with different numbers of terms',
      what_it_breaks='the order is no longer decided by the canonical bytes',
      edits=[(S, '''                if self.canonical != other.canonical:
                    return self.canonical < other.canonical
''', '''                if self.canonical != other.canonical:
                    return (len(self.canonical), self.canonical) < (len(other.canonical), other.canonical)
''')],
      demo='''
from ieml.dictionary.script import script
a, b = script("wo.+wa.e.e.-"), script("t.+l.d.O:O:.-")
import itertools
L = [script(x) for x in ("wo.+wa.e.-", "E:.O:O:.-", "O:.t.-", "t.+l.-", "d.+f.k.-", "M:.-", "M:U:.-", "wu.+we.+wa.-")]
for x, y in itertools.combinations(L, 2):
    if x.cardinal == y.cardinal and x.canonical != y.canonical:
        assert (x < y) == (x.canonical < y.canonical), (str(x), str(y))
'''),
 dict(id='p02-sum-sort-key', property='P02',
      needs='a sum of layer >= 2 with two terms of the same cardinal and canonical bytes but another structure',
      what_it_breaks='the text of the sum depends on the order in which the terms are found in the set',
      edits=[(S, '''        self.children.sort()

        if self.layer == 0:''', '''        self.children.sort(key=lambda c: (c.cardinal, c.canonical))

        if self.layer == 0:''')],
      demo='''
import subprocess, sys, os
if len(sys.argv) > 1:
    from ieml.dictionary.script import script
    for t in ("y.+o.e.u.-+y.o.+e.u.-", "wo.wa.+y.o.-+wo.+wa.y.o.-", "t.l.+d.s.-+t.+l.d.s.-", "a.b.+c.d.-+a.+b.c.d.-"):
        print(str(script(t)), sorted(script(t).children) == script(t).children)
    sys.exit(0)
outs = set()
for h in range(6):
    outs.add(subprocess.run([sys.executable, __file__, 'x'], env=dict(os.environ, PYTHONHASHSEED=str(h)),
                            stdout=subprocess.PIPE, check=True).stdout)
assert len(outs) == 1 and b'False' not in outs.pop()
'''),
 dict(id='p03-cardinal-limit', property='P03',
      needs='a product with exactly the maximal number of singular sequences',
      what_it_breaks='a legal product is rejected',
      edits=[(S, '''                raise InvalidScript("")

        if self.cardinal > MAX_SINGULAR_SEQUENCES:''', '''                raise InvalidScript("")

        if self.cardinal >= MAX_SINGULAR_SEQUENCES:''')],
      demo='''
from ieml.dictionary.script.script import MultiplicativeScript, AdditiveScript
from ieml.dictionary.script import script
from ieml.constants import MAX_SINGULAR_SEQUENCES
assert MAX_SINGULAR_SEQUENCES == 360
a, b, c = script('I:'), script('F:'), script("wo.+wa.+y.+o.+e.+wu.+we.+u.+a.+i.+j.+g.")
x = MultiplicativeScript(children=[script('I:S:.'), script('F:S:.'), c])
assert x.cardinal == 6 * 5 * 12 == 360
'''),
 dict(id='p05-sum-unsorted', property='P05',
      needs='a sum of products whose expansions interleave in the order of scripts',
      what_it_breaks='the singular sequences of a sum are not sorted',
      edits=[(S, '''            s = [sequence for child in self.children for sequence in child.singular_sequences]
            s.sort()
            return s''', '''            return [sequence for child in self.children for sequence in child.singular_sequences]''')],
      demo='''
from ieml.dictionary.script import script
s = script("U:S:O:.+A:O:.-".replace('-', '')) if False else script("wo.+e.O:.-+wa.O:.-")
for t in ("O:B:.+U:S:.", "U:M:.+U:U:.+A:O:.", "M:S:.+O:T:."):
    x = script(t)
    assert x.singular_sequences == sorted(x.singular_sequences), t
'''),
 dict(id='p06-same-cardinal-fast-path', property='P06',
      needs='two scripts with the same singular sequences written differently (a sum and its factorisation)',
      what_it_breaks='containment between them is denied',
      edits=[(S, '''        return item.singular_sequences_set.issubset(self.singular_sequences_set)

    def __len__''', '''        if item.cardinal >= self.cardinal:
            return item == self

        return item.singular_sequences_set.issubset(self.singular_sequences_set)

    def __len__''')],
      demo='''
from ieml.dictionary.script import script
a, b = script("O:M:."), script("U:M:.+A:M:.")
assert a.singular_sequences_set == b.singular_sequences_set
assert a in b and b in a
'''),
 dict(id='p08-mixed-sum', property='P08',
      needs='a sum with a singular term next to a paradigm',
      what_it_breaks='headers and table scripts no longer correspond',
      edits=[(S, '''        if any(not c.paradigm for c in self.children):''', '''        if all(not c.paradigm for c in self.children):''')],
      demo='''
from ieml.dictionary.script import script
s = script("wo.+M:M:.")
assert len(s.headers) == len(s.tables_script), (len(s.headers), len(s.tables_script))
'''),
 dict(id='p10-five-morphemes', property='P10',
      needs='an expansion with exactly the maximal number of morphemes',
      what_it_breaks='the expansion is missing',
      edits=[(PM, '''len(morpheme_semes) > SIZE_LIMIT:''', '''len(morpheme_semes) >= SIZE_LIMIT:''')],
      demo='''
from ieml.usl.usl import usl
u = usl("a. b. u. c. m1(wo. wa.)")
assert len(u.singular_sequences) == 3, len(u.singular_sequences)
'''),
 dict(id='p12-two-lexemes-one-role', property='P12',
      needs='two lexemes given for the role of one actant',
      what_it_breaks='one of the two lexemes is silently dropped',
      edits=[(SF, '''                if actor is not None:
                    raise ValueError(
                        "Invalid actant syntagmatic function definition, there is two lexemes for the same role.")
                actor = x
''', '''                actor = x
''')],
      demo='''
from ieml.usl.syntagmatic_function import SyntagmaticFunction
from ieml.usl.constants import ADDRESS_PROCESS_VALENCE_SCRIPTS, INITIATOR_SCRIPT
from ieml.usl.usl import usl
v = list(ADDRESS_PROCESS_VALENCE_SCRIPTS)[0]
l = [([v], usl('(wo.)')), ([INITIATOR_SCRIPT], usl('(wa.)')), ([INITIATOR_SCRIPT], usl('(y.)'))]
try:
    SyntagmaticFunction.from_list(l)
except ValueError:
    pass
else:
    raise AssertionError('accepted')
'''),
 dict(id='p13-longer-prefix', property='P13',
      needs='a path compared with a longer path that starts with it',
      what_it_breaks='a path has a prefix longer than itself, so that removing prefixes and concatenating go wrong',
      edits=[(PA, '''		if self.child is None:
			return prefix.child is None

		return self.child.has_prefix(prefix.child)''', '''		if self.child is None:
			return True

		return self.child.has_prefix(prefix.child)''')],
      demo='''
from ieml.usl.decoration.path import path
assert path('>content>constant>wo.').has_prefix(path('>content'))
assert not path('>content').has_prefix(path('>content>constant>wo.'))
'''),
 dict(id='p14-third-group-multiplicity', property='P14',
      needs='a polymorpheme with three groups where the last two have different multiplicities',
      what_it_breaks='the composed USL has another multiplicity for its third group',
      edits=[(PM, '''            yield from [(res_f(s, GroupIndex.GROUP_2, self.groups[2][1]), s) for s in self.groups[2][0]]''',
              '''            yield from [(res_f(s, GroupIndex.GROUP_2, self.groups[1][1]), s) for s in self.groups[2][0]]''')],
      demo='''
from ieml.usl.usl import usl
u = usl("m1(wo. wa.) m1(y. o.) m2(t. l. d.)")
l = list(u.iter_structure_path_by_script_ss())
assert usl(l) == u
assert str(usl(l)) == str(u)
'''),
 dict(id='p16-associated-cardinal', property='P16',
      needs='two products of one root that differ by their modes only, with modes of different cardinals',
      what_it_breaks='associated holds for pairs of different cardinal',
      edits=[(RE, '''            return s0.cardinal == s1.cardinal and\\
                   s0.children[0] == s1.children[0] and \\
''', '''            return s0.children[0] == s1.children[0] and \\
''')],
      demo='''
import pandas
from ieml.ieml_database.ieml_database import Structure
from ieml.dictionary.dictionary import Dictionary
from ieml.dictionary.script import script
rows = [['O:M:M:.', 'is_root', 'True'], ['U:S:M:.', 'is_root', 'False'], ['U:S:S:+B:.', 'is_root', 'False'],
        ['O:M:S:.', 'is_root', 'False'], ['O:M:S:+B:.', 'is_root', 'False']]
d = Dictionary([r[0] for r in rows], Structure(pandas.DataFrame(rows, columns=['ieml', 'key', 'value'])))
for s in d.scripts:
    for o in d.relations.object(s, 'associated'):
        assert s.cardinal == o.cardinal, (str(s), str(o))
'''),
 dict(id='p17-row-of-3', property='P17',
      needs='a paradigm of a set of tables that is not the whole set, below a root which is a set of tables',
      what_it_breaks='its rank is one more than documented',
      edits=[(TB, '''        if isinstance(self.parent, TableSet):
            return max(self.parent.rank, 1)
''', '''        if isinstance(self.parent, TableSet) and isinstance(self, Table2D):
            return max(self.parent.rank, 1)
''')],
      demo='''
import pandas
from ieml.ieml_database.ieml_database import Structure
from ieml.dictionary.dictionary import Dictionary
from ieml.dictionary.script import script
rows = [['O:O:.+M:O:.', 'is_root', 'True'], ['O:O:.', 'is_root', 'False'], ['U:O:.+A:O:.+S:O:.+B:O:.+T:O:.', 'is_root', 'True']]
rows = [['O:O:O:.', 'is_root', 'True'], ['O:O:U:.', 'is_root', 'False'], ['M:M:.+O:.+M:.', 'is_root', 'True'], ['O:.+M:.', 'is_root', 'False']]
rows = [["O:M:.+U:.O:.-".split('+')[0] + "+M:O:.", 'is_root', 'True'], ["O:M:.", 'is_root', 'False'], ["M:O:.", 'is_root', 'False'],
        ["O:O:U:.+O:O:A:.+M:M:M:.", 'is_root', 'True']]
rows = [["M:M:M:.", 'is_root', 'True'], ["M:M:S:+B:.", 'is_root', 'False'], ["M:M:S:.", 'is_root', 'False']]
d = Dictionary([r[0] for r in rows], Structure(pandas.DataFrame(rows, columns=['ieml', 'key', 'value'])))
t = d.tables[script("M:M:S:+B:.")]
assert t.rank == 1, t.rank
'''),
 dict(id='p18-hash-of-prefix', property='P18',
      needs='two USLs whose texts are longer than a file name and share their first 100 characters',
      what_it_breaks='both are stored in the same file: deleting one deletes the other',
      edits=[(DB, '''sha224(l.encode('utf8')).hexdigest()[:self.HASH_SIZE])''', '''sha224(l[:self.MAX_IEML_NAME_SIZE].encode('utf8')).hexdigest()[:self.HASH_SIZE])''')],
      demo='''
import os
from ieml.ieml_database import IEMLDatabase
from ieml.usl import PolyMorpheme
from ieml.dictionary.script import script
from ieml.dictionary.script.tools import promote
db = IEMLDatabase(os.environ['DEMO_WORK'], use_cache=False)
L = [promote(script(c), 4) for c in ('U:', 'A:', 'S:', 'B:')]
base = ["t.u.-k.u.-'", "t.u.-b.u.-'", "t.u.-d.u.-'", "k.u.-t.u.-'", "b.u.-t.u.-'", "d.u.-t.u.-'", "d.u.-d.u.-'", "d.u.-k.u.-'", "d.u.-b.u.-'"]
x = str(PolyMorpheme(constant=[script(b) for b in base] + [script("l.x.-l.x.-'")]))
y = str(PolyMorpheme(constant=[script(b) for b in base] + [script("l.x.-l.l.-'")]))
assert len(x) > 100 and x[:100] == y[:100] and x != y, (len(x), x, y)
db.add_descriptor(x, 'fr', 'translations', 'un')
db.add_descriptor(y, 'fr', 'translations', 'deux')
db.remove_descriptor(x)
assert db.get_descriptors().get_values(y, 'fr', 'translations') == ['deux']
'''),
 dict(id='p19-commit-failure', property='P19',
      needs='a failure of the commit which is not an error of git itself (disk, permission) after files have been written',
      what_it_breaks='the files written in the transaction remain after the failed commit',
      edits=[(GI, '''            except Exception as e:
                error("Error commiting, reset to {}".format(self.commit_id))''', '''            except GitError as e:
                error("Error commiting, reset to {}".format(self.commit_id))''')],
      demo=GITDB + '''
up = make(); g = clone(up, 'c')
import ieml.ieml_database.git_interface as gi
class Boom:
    def __init__(self, r): self.r = r
    def __getattr__(self, k): return getattr(self.r, k)
    def create_commit(self, *a, **k): raise OSError('disk full')
class G(GitInterface):
    fail = False
    @property
    def repo(self):
        r = GitInterface.repo.fget(self)
        return Boom(r) if self.fail else r
g = G(origin=up, credentials=None, folder=g.folder)
try:
    with g.commit(SIG, 'm'):
        open(os.path.join(g.folder, 'a.desc'), 'w').write('x')
        g.fail = True
except OSError:
    pass
g.fail = False
assert g.status() == {}, g.status()
assert not os.path.exists(os.path.join(g.folder, 'a.desc'))
'''),
 dict(id='p20-merge-parents', property='P20',
      needs='a pull where both sides have commits on different files (a merge without conflict)',
      what_it_breaks='the local commits are no longer in the history',
      edits=[(GI, '''                                   "Merge branch", tree_id, [repo.head.target, commit_target])

            else:''', '''                                   "Merge branch", tree_id, [repo.head.target])

            else:''')],
      demo=GITDB + '''
up = make(); a = clone(up, 'a'); b = clone(up, 'b')
r = pygit2.Repository(up)
def commit(g, f, m):
    with g.commit(SIG, m):
        open(os.path.join(g.folder, f), 'w').write(f + m)
commit(a, 'x.desc', 'ma')
target = a.repo.head.target
r.remotes.create('a', a.folder)
r.remotes['a'].fetch()
r.reset(target, pygit2.GIT_RESET_HARD)
commit(b, 'y.desc', 'mb')
mine = b.repo.head.target
b.pull()
ids = [str(c.id) for c in b.repo.walk(b.repo.head.target)]
assert str(mine) in ids and str(target) in ids
assert os.path.exists(os.path.join(b.folder, 'x.desc')) and os.path.exists(os.path.join(b.folder, 'y.desc'))
b.pull()
assert [str(c.id) for c in b.repo.walk(b.repo.head.target)] == ids
'''),
 dict(id='p21-watch-desc-only', property='P21',
      needs='a change of the structure alone (no descriptor) between two reads of the cached dictionary',
      what_it_breaks='the dictionary read from the cache is stale',
      edits=[(DB, '''@cache_results_watch_files("morpheme/paradigm/*", 'dictionary')''', '''@cache_results_watch_files("morpheme/paradigm/*.desc", 'dictionary')''')],
      demo='''
import os
from ieml.ieml_database import IEMLDatabase
from ieml.dictionary.script import script
W = os.environ['DEMO_WORK']
db = IEMLDatabase(W, use_cache=True)
for s in ('O:M:.', 'M:O:.'):
    db.add_descriptor(s, 'fr', 'translations', 'x')
db.add_structure('O:M:.', 'is_root', True)
assert len(db.get_dictionary().tables.roots) == 1
db.add_structure('M:O:.', 'is_root', True)
assert len(db.get_dictionary().tables.roots) == 2
'''),
 dict(id='p22-padding', property='P22',
      needs='a dictionary with more than 62 scripts',
      what_it_breaks='the keys have different lengths, so that their order is not that of the dictionary',
      edits=[('ieml/usl/__init__.py', '''return int2base(q, max - 1, characters) + characters[r]''', '''return int2base(q, max, characters) + characters[r]''')],
      demo='''
import pandas
from ieml.ieml_database.ieml_database import Structure
from ieml.dictionary.dictionary import Dictionary
from ieml.usl import get_index
rows = [["F:F:M:.", 'is_root', 'True']]
d = Dictionary([r[0] for r in rows], Structure(pandas.DataFrame(rows, columns=['ieml', 'key', 'value'])))
keys = [get_index(s, d)[1] for s in d.scripts]
assert len(keys) > 62 and keys == sorted(keys) and len(set(map(len, keys))) == 1
'''),
 dict(id='p23-second-inhibition-lost', property='P23',
      needs='an update of a root paradigm with several inhibitions to a bigger one',
      what_it_breaks='all its inhibitions but the first are lost',
      edits=[(TX, '''                for (_, key), values in old_structure.items():
                    for v in values:
                        db.add_structure(script_new, key, v)''', '''                for (_, key), values in old_structure.items():
                    db.add_structure(script_new, key, values[0])''')],
      demo=GITDB + '''
from ieml.ieml_database.transactions.DBTransaction import DBTransactions
from ieml.dictionary.script import script
g = clone(make(), 'c')
db = IEMLDatabase(g.folder, use_cache=False)
with g.commit(SIG, 'init'):
    db.add_structure('M:M:.', 'is_root', True)
    db.add_descriptor('M:M:.', 'fr', 'translations', 'x')
t = DBTransactions(g, SIG, use_cache=False)
tr = lambda v: {'fr': [v], 'en': [v]}
t.create_root_paradigm(script('O:O:.'), ['opposed', 'twin'], tr('a'), tr('b'))
t.update_morpheme_paradigm(script('O:O:.'), script('O:F:.'))
db = IEMLDatabase(g.folder, use_cache=False)
assert sorted(db.get_structure().get_values('O:F:.', 'inhibition')) == ['opposed', 'twin']
'''),
]
