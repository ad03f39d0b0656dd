"""Writes properties.jsonl (kept as Python so that long lines stay readable)."""
import json, os
S = 'ieml/dictionary/script/'
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))


P('P01', 'The order of scripts is a strict total order compatible with equality',
  'For any two scripts (sums having at least two distinct terms), exactly one of a<b, b<a, a==b holds, equality is equality of '
  'the canonical text and agrees with hashing, and < is transitive. The order is decided first by layer, then the empty script '
  'of a layer comes before every other, then by number of singular sequences, then by the canonical bytes, then by the structure. '
  'Sorting the same scripts therefore gives the same list whatever the initial arrangement or hash seed.',
  ['inputs'], 'all pairs and triples of scripts of every layer (0 to 6), product, sum and empty',
  'the tests compare a dozen fixed scripts; a broken tie-break shows only on particular pairs (same layer, cardinal and canonical bytes)',
  [S + 'script.py', 'ieml/commons.py', 'ieml/constants.py'],
  [('Script.__lt__/__eq__/__hash__', S + 'script.py'), ('canonical bytes', S + 'script.py __order'), ('character_value', 'ieml/constants.py')])
P('P02', 'A sum of scripts is the set of its terms: same text in any order or nesting',
  'Adding scripts of one layer gives a script which depends only on the set of terms: repeating a term, permuting the terms or '
  'grouping them in sub-sums (including a sub-sum of one term) changes nothing, the terms come out sorted in the order of scripts, and no term is lost or added. '
  'The layer is that of the terms, the cardinal is the sum of the cardinals of the distinct terms, the script is empty or a paradigm exactly as '
  'its terms imply, its class is the highest class of its terms and a sum of primitives which has a remarkable letter (O, M, F, I) is written with that letter. '
  'Adding scripts of different layers, adding nothing, an unknown character, or exceeding the maximal number of singular sequences is rejected.',
  ['inputs'], 'all finite multisets of scripts of one layer, all nestings and permutations',
  'tests build a few fixed sums; the guarantee ranges over every multiset, nesting and permutation',
  [S + 'script.py', S + 'operator.py'],
  [('AdditiveScript.__init__', S + 'script.py'), ('Script.__add__', S + 'script.py'), ('script()', S + 'operator.py')])
P('P03', 'A product of scripts has one normal form with its documented attributes',
  'A product of one, two or three scripts of layer n is a script of layer n+1 whose three parts are exactly the given ones, missing or empty parts being the empty script of '
  'layer n (a sum of a single term counts as its term), and two products are equal exactly when their parts are equal. Its cardinal is the product of the cardinals, it is a paradigm iff '
  'a part is, it is empty iff all parts are, its class is that of its substance, and products of primitives that have a remarkable letter (wo, wa, y, ...) get that letter; the letter builds the same script. '
  'Parts of different layers, the character E, unknown characters and products with too many singular sequences are rejected.',
  ['inputs'], 'all triples of scripts of every layer, given positionally, as children or as a character',
  'tests look at some constructors on fixed inputs', [S + 'script.py', S + 'operator.py', 'ieml/constants.py'],
  [('MultiplicativeScript.__init__', S + 'script.py'), ('MultiplicativeScript._render_children', S + 'script.py'), ('NullScript', S + 'script.py')])
P('P04', 'Text and pickle of a script read back to the same script, and conversely',
  'The text of any script parses to a script equal to it in all its attributes (text, parts, layer, cardinal, class, emptiness, singular sequences), and any text that parses, whatever its '
  'order of terms and explicit or omitted empty parts, gives the canonical form of the script it denotes. Pickling and unpickling a script preserves it likewise, and text that is not a well formed script is refused.',
  ['inputs'], 'all scripts of layers 0 to 6 and all texts of the script language', 'tests parse about a dozen literals',
  [S + 'parser/parser.py', S + 'parser/lexer.py', S + 'script.py', S + 'operator.py'],
  [('ScriptParser grammar actions', S + 'parser/parser.py'), ('lexer tokens', S + 'parser/lexer.py'), ('_do_precompute_str', S + 'script.py'), ('__getnewargs_ex__/__new__', S + 'script.py')])
P('P05', 'Singular sequences are exactly the expansions of the script, sorted and counted',
  'The singular sequences of a script are the scripts obtained by choosing one singular sequence of each non empty part of a product and one term of a sum, in all combinations, '
  'sorted in the order of scripts; their number is the cardinal announced by the script. Every one of them is singular (its only singular sequence is itself) and of the same layer as the script.',
  ['inputs'], 'all scripts, all layers', 'tests count the singular sequences of a few scripts',
  [S + 'script.py'], [('AdditiveScript/MultiplicativeScript/NullScript._compute_singular_sequences', S + 'script.py'), ('Script.singular_sequences', S + 'script.py')])
P('P06', 'Containment between scripts is inclusion of their singular sequences',
  'A script contains another one iff both have the same layer and every singular sequence of the second is one of the first; nothing but a script is contained in a script. Hence containment is reflexive and transitive, a sum contains its '
  'terms, and every script contains its singular sequences.',
  ['inputs'], 'all pairs and triples of scripts, and objects which are not scripts', 'no test ranges over pairs',
  [S + 'script.py'], [('Script.__contains__', S + 'script.py'), ('Script.singular_sequences_set', S + 'script.py')])
P('P07', 'Factorizing keeps exactly the singular sequences; promoting adds only empties',
  'Factorizing a script, a text or a collection of scripts of one layer gives a script with exactly the union of their singular sequences, independently of the order in which they are given, and never '
  'fails on non empty input. Promoting a script to a higher layer gives a script of that layer whose substance, repeatedly, is the original and whose other parts are empty; a script which is already at or above the layer is itself.',
  ['inputs'], 'all non empty sets of scripts of one layer (at most 6), all layers to promote to', 'tests factorize three scripts',
  [S + 'tools.py', S + 'operator.py'], [('factorize, factor, pack_factorisation', S + 'tools.py'), ('promote', S + 'tools.py')])
P('P08', 'The tables of a paradigm hold each singular sequence in the cell of its headers',
  'Every singular sequence of a script appears in the cells of its tables exactly as often as in its singular sequences, and nothing else does. '
  'In a table built from one product, the cell at row r, column c of tab t is the only singular sequence contained in the r-th row header, the c-th column header and the script of the tab; tables_script and headers correspond one to one, and '
  'a singular script is its own single cell.',
  ['inputs'], 'all paradigms whose dimensions are within the limit of headers', 'tests look at the shape of a few tables',
  [S + 'script.py', 'ieml/dictionary/table/table.py'],
  [('_compute_cells, cells, headers, tables_script', S + 'script.py'), ('Cell/Table1D/Table2D', 'ieml/dictionary/table/table.py')])
U = 'ieml/usl/'
P('P09', 'Text of a USL reads back to the same USL; construction ignores order',
  'The text of any well formed USL (morpheme, polymorpheme, lexeme, word) parses to an equal USL of the same type with the same structure and the same text (a polymorpheme made of a single morpheme is read as that morpheme), and morphemes, groups and roles are '
  'normalised: giving the constants of a polymorpheme, the morphemes of a group, or the groups in another order gives the same text. Text that is not well formed is refused with the exception of the library.',
  ['inputs'], 'all polymorphemes, lexemes and words over the dictionary alphabet', 'tests read a few fixed literals',
  [U + 'parser/parser.py', U + 'parser/lexer.py', U + 'polymorpheme.py', U + 'lexeme.py', U + 'word.py', U + 'syntagmatic_function.py'],
  [('IEMLParserSingleton grammar', U + 'parser/parser.py'), ('do_precompute_str of each class', U), ('PolyMorpheme.__init__', U + 'polymorpheme.py')])
P('P10', 'Polymorphemes expand to exactly the choices their groups allow',
  'A polymorpheme without groups is its own only singular sequence; one with groups expands, without repetition, to the polymorphemes made of all its constants and, from each group, at most its multiplicity of its morphemes, the numbers taken '
  'from the groups differing by at most one and at most five morphemes in all (with no constant, the implied empty one counts). It is singular iff there is only one expansion and its cardinal is their number. Checking a polymorpheme accepts it iff its morphemes are singular scripts, '
  'in order, each occurring once over constants and groups, and each multiplicity is between one and the least of three and the size of its group.',
  ['inputs'], 'all constants, groups and multiplicities', 'tests expand two polymorphemes',
  [U + 'polymorpheme.py'], [('PolyMorpheme singular sequences', U + 'polymorpheme.py'), ('check_polymorpheme', U + 'polymorpheme.py')])
P('P11', 'USLs are totally ordered, compatibly with equality and hash',
  'For any two USLs of the kinds polymorpheme, lexeme and word exactly one of a<b, b<a, a==b holds, equality is equality of type and text and agrees with hash, and < is transitive; '
  'syntagmatic roles are likewise totally ordered. Sorting a collection of USLs gives the same list whatever its initial arrangement.',
  ['inputs'], 'all pairs and triples of USLs of these kinds', 'no test compares USLs pairwise',
  [U + 'usl.py', U + 'polymorpheme.py', U + 'lexeme.py', U + 'word.py', U + 'syntagmatic_function.py'],
  [('USL.__lt__/__eq__/__hash__', U + 'usl.py'), ('do_lt', U + 'polymorpheme.py, lexeme.py, word.py'), ('SyntagmaticRole.__lt__, SyntagmaticFunction.__lt__', U + 'syntagmatic_function.py')])
P('P12', 'A word is the function of its roles: build, list, expand without loss',
  'Building the syntagmatic function from any accepted assignment of lexemes to roles and listing its roles gives back the same assignment, each role in its place, for process (with or without actants by valence), actant, quality and junction functions; '
  'two lexemes for one role, unknown roles, two kinds of function, two processes, qualities of a process, actants in actants or qualities, actants without process, lexemes without role, qualities of no lexeme, roles beside a junction, incomplete junctions and nothing at all are rejected. The singular sequences of a word are all the words obtained by choosing one singular sequence of each lexeme independently, keeping the role that is singled out, and its cardinal '
  'and singularity agree with this; a role singled out that is a junction stands for all the lexemes it joins.',
  ['inputs'], 'all assignments of lexemes to role addresses, all role selections', 'tests build three words',
  [U + 'syntagmatic_function.py', U + 'word.py', U + 'constants.py'],
  [('SyntagmaticFunction.from_list/as_list', U + 'syntagmatic_function.py'), ('singular_sequences', U + 'syntagmatic_function.py, word.py'), ('check_word', U + 'word.py')])
P('P13', 'Paths: text round trip, composition, prefixes and dereference are coherent',
  'The text of a path parses to an equal path; appending a path to another and removing it gives back the other, a path has every prefix obtained by cutting it and none longer than itself, and paths are equal iff their texts and kinds are. Dereferencing the path of any component enumerated for a USL gives that component, '
  'and dereferencing a concatenation is dereferencing its parts in turn; a path to a morpheme, group or role that the USL does not have is refused.',
  ['inputs'], 'all paths of the path grammar and all USLs', 'tests parse and dereference about ten paths',
  [U + 'decoration/path.py', U + 'decoration/parser/parser.py', U + 'decoration/parser/lexer.py'],
  [('UslPath.has_prefix/concat/remove_prefix/clone/deference', U + 'decoration/path.py'), ('PathParser', U + 'decoration/parser/parser.py')])
P('P14', 'Decomposing a USL into paths and composing them back is the identity',
  'For any polymorpheme, lexeme or word, the list of (path, morpheme) pairs enumerated for it rebuilds, in any order, a USL equal to the original, and each pair is consistent with dereferencing. The enumeration visits every morpheme of the USL, the constants and each group member, exactly once.',
  ['inputs'], 'all well formed USLs whose inflections belong to the inflection paradigms, all permutations of the pairs', 'tests rebuild five fixed USLs',
  [U + 'decoration/path.py', U + 'usl.py', U + 'polymorpheme.py', U + 'lexeme.py', U + 'word.py'],
  [('usl_from_path_values', U + 'decoration/path.py'), ('iter_structure_path(_by_script_ss)', U)])
P('P15', 'Literals attached to a USL survive printing and parsing, at their paths',
  'A USL decorated with literals at the paths of its morphemes, contents, inflections and lexemes (each morpheme occurring once in the USL) prints to a text which parses to a USL equal to the undecorated one, with the same literals at the same paths, for literals with any characters including quotes (backslashes excepted). '
  'Looking up the literal of a path gives the one set there and nothing elsewhere, and decorating, or a refused decoration, never changes the USL underneath.',
  ['inputs'], 'all USLs, all of their paths, all literal strings without backslash', 'tests decorate two words',
  [U + 'decoration/instance.py', U + 'decoration/path.py', U + 'parser/parser.py'],
  [('InstancedUSL', U + 'decoration/instance.py'), ('literal rules', U + 'parser/parser.py')])
D = 'ieml/dictionary/'
P('P16', 'Dictionary relations follow from the scripts and are mutually consistent',
  'A dictionary built from root paradigms and paradigms holds the roots, their singular sequences and the paradigms placed in the tables of a root, each with one index in the order of scripts, whatever the order they are given in; overlapping roots are refused. Contains is exactly script containment and contained its transpose; father relations hold exactly between a script and the parts of that role '
  '(when a part is not in the dictionary, its terms or the parts it is made of), and child is the transpose. Opposed, associated, crossed and twin are symmetric and hold exactly for the pairs of products of one root with the documented structure unless inhibited on that root, and the table relation of rank k holds exactly for pairs contained in a paradigm of rank k.',
  ['inputs', 'configurations'], 'all sets of root paradigms (no empty sequence above layer 0, no sum counting a sequence twice) with their paradigms and inhibitions', 'tests need the network copy of the database and cannot run here; they check some pairs of one dictionary',
  [D + 'dictionary.py', D + 'relation/relations.py'], [('Dictionary.__init__', D + 'dictionary.py'), ('RelationsGraph', D + 'relation/relations.py')])
P('P17', 'Every script of a dictionary has one root, whose tables give its rank',
  'In a dictionary each script contained in a root is attributed to it and to no other, and asking for the root of a script in no root is refused. A paradigm is placed under the least table of its root which accepts it: a stretch of a one-dimensional table, a paradigm spanning all rows or all columns or a connected or periodic block of a two-dimensional table of rank zero or odd, a union of tables of a set of tables. '
  'The rank of a root is 0, that of a cell 6, that of a paradigm of a set of tables is the rank of its parent, and otherwise one more than the rank of its parent, or two more for a single row or column or a stretch, a root parent counting as 1.',
  ['inputs'], 'all sets of root paradigms and the paradigms contained in them', 'the tests of ranks need the dictionary of the network',
  [D + 'table/table.py', D + 'table/table_structure.py'], [('Table.rank, accept_script', D + 'table/table.py'), ('TableStructure', D + 'table/table_structure.py')])
B = 'ieml/ieml_database/'
P('P18', 'The descriptor and structure store is a faithful multiset of records',
  'After any sequence of additions and removals, the descriptors (and structure records) read from disk are exactly those added and not removed, per USL, language (key) and kind, with their text intact (tabs, quotes, commas, spaces, words like NA or null, numbers; a newline is kept as the two characters \\n), and nothing recorded for another USL, language or kind changes. '
  'Adding a value appends one record, removing a value removes all the records with that text and nothing else, removing one that is not there changes nothing, blank values are not recorded; invalid languages, kinds or structure keys are refused, and listings by USL type contain exactly the USLs on disk.',
  ['inputs', 'histories'], 'all finite histories of operations over all texts, languages and USLs', 'the database tests are excluded from the stable ones; they add and read one value',
  [B + 'ieml_database.py', B + 'descriptors.py'], [('IEMLDatabase add/remove/get', B + 'ieml_database.py'), ('Descriptors/Structure', B + 'descriptors.py')])
P('P19', 'A git transaction commits everything or leaves the repository as it was',
  'A transaction whose body ends normally records all the changes of the body in exactly one commit, on top of the previous head, with the given author and message, and none when nothing changed. If the body raises, whatever it did to tracked or untracked files, the exception goes through, no commit is added and the working tree is the one of the previous head.',
  ['inputs', 'fault_sequences', 'histories'], 'all bodies (creations, modifications, deletions of files), failing at any point', 'tests never make the body fail',
  [B + 'git_interface.py'], [('git_transaction', B + 'git_interface.py'), ('GitInterface.reset/commit', B + 'git_interface.py')])
P('P20', 'Pulling merges both histories and reports the local side of each conflict',
  'Pulling a diverged remote gives a clean repository, merged by one commit whose parents are both heads, where files changed on one side only are as that side has them and lines changed on both sides are merged when they do not conflict. A file in conflict comes out exactly as the remote has it (or deleted) and, for a descriptor file, the local descriptors (empty when locally deleted) are returned as the conflict of that USL, and for no other USL. '
  'Pulling when nothing is new changes nothing, and when only the remote moved it moves to the remote exactly.',
  ['inputs', 'histories'], 'all pairs of divergent histories of edits of descriptor and structure files from a common ancestor (no side both creating and deleting files)', 'the conflict tests are not among the stable ones and sample four histories',
  [B + 'git_interface.py', B + 'descriptors.py'], [('GitInterface.pull', B + 'git_interface.py'), ('conflict resolution', B + 'git_interface.py')])
P('P21', 'A cached answer is never stale',
  'Reading the list of USLs, the dictionary or any result cached over watched files gives, after any change of the files on disk since the cache was filled, exactly what reading without cache gives. Contents that differ in any way (name or content of any watched file) are never served from the same cache entry, and when nothing watched changed the same answer is given again.',
  ['histories', 'inputs'], 'all histories of changes of files interleaved with cached reads', 'no test of the cache is stable',
  ['ieml/commons.py', B + 'ieml_database.py', D + 'dictionary.py'], [('FolderWatcherCache, cache_results_watch_files', 'ieml/commons.py')])
P('P22', 'Index keys of USLs order and separate them',
  'The text written in a positional base for an index has the fixed width (when the index fits), distinct indices have distinct texts and alphabetical order of texts is the order of the indices, for every alphabet in order beginning with 0; negative indices are refused. The key of a USL starts with the number of its kind (morpheme, polymorpheme, lexeme, word), so that keys never collide across kinds, a polymorpheme of a single morpheme '
  'has the key of the morpheme, and distinct morphemes, and distinct polymorphemes without groups, of the dictionary have distinct keys.',
  ['inputs'], 'all indices below the capacity, all bases, all USLs of a dictionary', 'no test',
  [U + '__init__.py'], [('int2base, get_index', U + '__init__.py')])
P('P23', 'A database edit does exactly what is asked, in one commit, or nothing',
  'Creating, updating, deleting or re-describing a USL or paradigm, setting inhibitions, or migrating all USLs through the editing interface records exactly the requested descriptors and structure for the USLs concerned, leaves the records of every other USL as they were and adds one commit by the given author (plus one for each table of a new root made of several tables), none when nothing changes. '
  'A request that is refused (not factorized, singular or already defined paradigm, root overlapping another, paradigm in no root or in several, unknown inhibition, kind or root, missing language, failure of the migration function) leaves files and history as they were.',
  ['histories', 'inputs'], 'all sequences of accepted and refused edits on any database', 'no stable test touches the editing interface',
  [B + 'transactions/DBTransaction.py', B + 'ieml_database.py'], [('DBTransactions', B + 'transactions/DBTransaction.py')])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as fp:
        for p in PROPS:
            fp.write(json.dumps(p) + '\n')
