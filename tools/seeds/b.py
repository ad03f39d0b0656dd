T = 'ieml/dictionary/script/tools.py'
SF = 'ieml/usl/syntagmatic_function.py'
SEEDS = [
 dict(id='p04-truncated-text', property='P04',
      needs='a text that is a proper prefix of a script (cut before its last layer mark)',
      what_it_breaks='a truncated text gives None instead of a refusal',
      edits=[('ieml/dictionary/script/parser/parser.py', '''        else:
            msg = "Syntax error at EOF"

        raise InvalidScript(msg)''', '''            raise InvalidScript(msg)''')],
      demo='''
from ieml.dictionary.script import script
from ieml.exceptions import CannotParse
for t in ("wo.wa", "M:M", "wo.wa.-y.", "S:+"):
    try:
        r = script(t)
    except CannotParse:
        continue
    raise AssertionError((t, r))
'''),
 dict(id='p09-actors-insertion-order', property='P09',
      needs='a word whose roles are given in another order than that of the addresses',
      what_it_breaks='the text of a word depends on the order in which its roles were given',
      edits=[(SF, '''            for address in sorted(self.actors) if not isinstance''', '''            for address in self.actors if not isinstance''')],
      demo='''
from ieml.usl.usl import usl
import itertools
parts = ["! E:S:. (wo.)", "E:.n.- (wa.)", "E:.t.- (y.)", "E:.l.- (o.)"]
texts = {str(usl("[" + " > ".join(p) + "]")) for p in itertools.permutations(parts)}
assert len(texts) == 1, texts
'''),
 dict(id='p11-role-ignored', property='P11',
      needs='two words with the same tree whose focus is on different roles',
      what_it_breaks='two different words are not comparable',
      edits=[('ieml/usl/word.py', '''        return self.syntagmatic_fun < other.syntagmatic_fun or \\
               (self.syntagmatic_fun == other.syntagmatic_fun and self.role < other.role)''', '''        return self.syntagmatic_fun < other.syntagmatic_fun''')],
      demo='''
from ieml.usl.usl import usl
a = usl("[! E:S:. (wo.) > E:.n.- (wa.)]")
b = usl("[E:S:. (wo.) > ! E:.n.- (wa.)]")
assert a != b and (a < b) != (b < a)
'''),
 dict(id='p15-refused-decoration', property='P15',
      needs='a refused decoration (a path that does not exist in the USL) after an accepted one',
      what_it_breaks='the literal of the refused attempt remains on the USL, and appears in its next decorated instance',
      edits=[('ieml/usl/decoration/instance.py', '''		for s in self.stack:
			s.clear_literal()
		self.stack = []

	def push''', '''		if exc_type is None:
			for s in self.stack:
				s.clear_literal()
		self.stack = []

	def push''')],
      demo='''
from ieml.usl.usl import usl
from ieml.usl.decoration.instance import InstancedUSL, Decoration
from ieml.usl.decoration.path import path
u = usl('(wo.)(t.)')
try:
    InstancedUSL(u, [Decoration(path('>content>constant>t.'), 'x'), Decoration(path('>content>constant>l.'), 'y')])
except Exception:
    pass
v = InstancedUSL(u, [Decoration(path('>content'), 'z')])
assert [str(d.value) for d in v.decorations] == ['z'], str(v)
'''),
 dict(id='p07-cube-corner', property='P07',
      needs='a three dimensional block of singular sequences',
      what_it_breaks='the factorisation counts a corner of the block twice: its singular sequences are repeated',
      edits=[(T, '''        yield x2, y1, z1
        yield x2, y1, z2
''', '''        yield x2, y1, z1
''')],
      demo='''
from ieml.dictionary.script import script
from ieml.dictionary.script.tools import factorize
L = [script(x) for x in ("T:S:B:.", "B:S:S:.", "E:S:B:.", "T:U:T:.", "E:S:S:.", "B:U:T:.", "B:S:T:.", "T:U:S:.", "E:S:T:.", "E:U:T:.", "T:S:S:.", "B:U:S:.")]
f = factorize(L)
assert sorted(f.singular_sequences) == sorted(L), str(f)
'''),
]
