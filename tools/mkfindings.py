"""Writes known_findings.jsonl."""
import json, os
F = [('P02', '03ba659', 'adding to a sum of a single script dropped it: (a+a)+b gave b'),
('P07', '2584596', 'factorize raised KeyError on sequences that do not fill a cube'),
('P10', 'efa2e11', 'expansions exceeded the multiplicity of a group: m1(U:) m1(A: S: B:) gave U: A: S:'),
('P12', '1c93d92', 'morphemes of a word with a junction: None actor'),
('P11', '72c335e', 'comparing two words of which only one has a junction raised'),
('P15', '70b3881', 'an escaped quote in a literal was kept escaped when parsed'),
('P15', 'f37fa1c', 'paths with a focus, a role alone or a group multiplicity were not read in decorations'),
('P13', '82f508f', 'a parsed path of a constant had another multiplicity than the same path built'),
('P13', '8f8fe9c', 'paths of inflections of lexemes did not lead to constants and groups'),
('P15', 'ad7a43d', 'a decorated polymorpheme with an inflection path could not be read'),
('P18', '931a63a', 'the values NA, null, 12, True were altered when read'),
('P18', '76c6af7', 'get_structure on an empty database raised EmptyDataError'),
('P18', '5d8a9e5', 'Structure.get_values raised TypeError for a single value'),
('P18', '0efdde1', 'remove_descriptor removed values which begin with the given one, ignored the value without language, failed on quotes'),
('P20', 'b601f05', 'pull raised NameError when a file was deleted locally and modified remotely'),
('P20', '30796f5', 'pull raised UnboundLocalError when only structure files were in conflict'),
('P17', '6072032', 'the root of a script in no root was None instead of KeyError, so no root paradigm could be created'),
('P21', 'a302695', 'two different folder contents had the same cache key'),
('P21', '4fdbe00', 'the cached list of USLs did not depend on most descriptor files'),
('P23', '38bdf14', 'update_all_ieml removed every descriptor'),
('P22', 'e1273a9', 'lexemes were listed as words and words as lexemes'),
('P23', '08801a4', 'update_all_ieml lost descriptors when an ieml became that of another USL'),
('P09', '48b5026', 'the text of a word whose singled out role is a junction was read with another role'),
('P09', 'd7dd12e', 'a lexeme without role, or a junction without or with unordered indices, in the text of a word: IndexError'),
('P12', '37c37ff', 'a role beside an independant quality junction was moved into the junction'),
('P12', '941800b', 'a role with qualities but no lexeme was accepted and rendered as None, which can not be read back'),
('P09', '698300b', 'morphemes starting by E:.b.E:?:.- were refused, or read as other morphemes'),
('P16', '3280807', 'a paradigm both marked as ignored and out of every root was removed twice (KeyError)'),
('P13', 'c3e596e', 'asking whether a path in a polymorpheme has a prefix of another kind raised AttributeError'),
('P18', 'c21e9ab', 'a carriage return in a descriptor was turned into a newline by the next removal of a descriptor of the same USL, and a text with one could not be removed'),
('P12', '971a051', 'a lexeme or word whose groups give one expansion only was its own singular sequence'),
]
K = [dict(property='P17', status='known', case='rank_nesting', args=[['I:', 'F:', 'M:', 'S:+B:']],
          what="a dictionary of the root I: with the nested stretches F:, M:, S:+B: cannot be built (IndexError: the innermost "
               "would have rank 7, there are table relations for ranks 0 to 5 only)"),
     ]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl'), 'w') as fp:
    for p, c, w in F:
        fp.write(json.dumps(dict(property=p, status='fixed', commit=c, what=w, text='fixed: property=%s %s %s' % (p, c, w))) + '\n')
    for k in K:
        fp.write(json.dumps(k) + '\n')
