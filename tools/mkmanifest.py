"""Writes MANIFEST.json from properties.jsonl and the table of levels."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.main import PROOFS, LEVELS, NOTES   # noqa
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    cmd = '/opt/venv/bin/python /verif/run.py ' + p
    checks.append(dict(
        property=p, quick_cmd=cmd, thorough_cmd='env VERIF_TIER=thorough ' + cmd, evidence_file='evidence/%s.json' % p,
        technique='contract-based deductive verification: contracts on the real functions of /repo, obligations generated from the '
                  'current source by symbolic execution (pyvc) and discharged by z3 and cvc5; the functions out of its reach are '
                  'checked by bounded evaluation of their contracts, labelled bounded',
        level=LEVELS[p], level_note=NOTES[p]))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import ply, pandas, pygit2, scipy"', checks=checks, not_applicable=[],
         notes='The checks import /repo directly, write only in scratch folders and evidence/, replay/ here.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
