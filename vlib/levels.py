"""Level of each property, and what is proved and what is a bounded stand-in."""
PLY = 'PLY (tables, tokenizer) is trusted; '
B = ' Bounded stand-in on top: the postconditions evaluated on generated inputs of the real code (labelled bounded, never counted as proved).'
NOTES = {
    'P01': 'Proved: __lt__ and __eq__ of scripts of any size meet the documented order (induction on the layer), which is a strict '
           'total order compatible with equality (lemmas); the 63 scripts of layer 0 by complete enumeration.' + B,
    'P02': 'Proved: the constructor of sums for lists of any length and nesting, and +; the sum depends only on the set of terms '
           '(lemma). Layer 0 by complete enumeration of the sets of primitives.' + B,
    'P03': 'Proved: the constructor of products for lists of 1 to 3 parts and named parts, refusals, the empty script; layer 0 by '
           'complete enumeration of the triples of primitives.' + B,
    'P04': 'Proved: the texts written by the three classes, every action of the grammar, script(), t_parse, p_error, pickle. ' + PLY +
           'the lexer is enumerated on all the texts of length 1 and 2.' + B,
    'P05': 'Proved: the singular sequences of sums and products of any number of terms, the memo, the empty script.' + B,
    'P06': 'Proved: containment, the set of singular sequences, the laws.' + B,
    'P07': 'Proved: promote, factorize, the assembling of the factors (pack_factorisation) and script() with factorization. Bounded: '
           'only the search of the factors (`factor`, solve_script: numpy and recursion over masks).' + B,
    'P08': 'Proved: the cells, tables and headers of products with one, two or three plural parts (for parts of any cardinal), of sums, '
           'of singular scripts, and the memo; numpy arrays are replaced by their contract (which cell is written).' + B,
    'P09': 'Proved: normal form and text of polymorphemes and lexemes, every action of the grammar, parse, p_error, reading back of '
           'lexemes. ' + PLY + 'the tokens are enumerated; the text of words with functions of every shape is bounded.' + B,
    'P10': 'Proved: check_polymorpheme, the memo, containment, expansions without group. Bounded: compute_PM_singular_sequences with '
           'groups (combinatorial search), enumerated up to 5 constants and 3 groups.' + B,
    'P11': 'Proved: the orders of roles, polymorphemes, lexemes, words and USLs of any shape; the table of role addresses.' + B,
    'P12': 'Proved: from_list for any list of roles of the accepted shapes, as_list, the role scripts, expansions of lexemes, words and '
           'functions (functions of up to 3 lexemes of any number of singular sequences).' + B,
    'P13': 'Proved: text, equality, copies, appending, prefixes, every action of the grammar of paths, the following of each kind of '
           'step and of whole paths, roles of functions. ' + PLY + 'tokens enumerated.' + B,
    'P14': 'Proved: the enumeration of the morphemes of polymorphemes, lexemes, functions and words, and the rebuilding of each from '
           'its paths. The composition of both over a whole word is bounded.' + B,
    'P15': 'Proved: literals, contexts, text and reading of decorations, listing and decorating (up to 3 decorations for the texts). ' +
           PLY + 'tokens enumerated.' + B,
    'P16': 'Proved: contains, fathers, siblings, the relation matrices and their reading. Bounded: Dictionary.__init__ (index, roots, '
           'overlaps), twins and table relations.' + B,
    'P17': 'Proved: rank, acceptance by tables of each kind, placing of paradigms under the least table, roots. Bounded: the test of '
           'connected or periodic blocks (is_connexe_tilling), all the subsets of small tables.' + B,
    'P18': 'Proved: what each edit of the store writes, keeps and removes in which file, keys, escaping, names of files. Bounded: '
           'the reading of the files (pandas, csv).' + B,
    'P19': 'Proved: for every sequence of statuses and every outcome of the body: enter, exit, reset; libgit2 replaced by its contract.' + B,
    'P20': 'Proved: the four cases of pull and every conflict of any list of conflicts; libgit2 replaced by its contract.' + B,
    'P21': 'Proved: when a cached result is used, current or not, storing; the name of a cache determines the list of names, sizes and '
           'contents watched, for any number of files (the hash is taken as injective).' + B,
    'P22': 'Proved: fixed width and order of the base text for every base, width and index; keys of each kind.' + B,
    'P23': 'Proved: each edit of the interface as a fold of effects on the store, for lists of any length, in one transaction; the store '
           'is replaced by its contract (P18), transactions by theirs (P19).' + B,
}
PROOF = {'P01', 'P02', 'P03', 'P05', 'P06', 'P08', 'P11', 'P19', 'P20', 'P21', 'P22', 'P23'}
LEVELS = {p: 'proof' if p in PROOF else 'other' for p in NOTES}
