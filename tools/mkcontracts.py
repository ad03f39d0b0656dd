#!/opt/venv/bin/python
"""Writes CONTRACTS.md: every contract, the function of /repo it is about, what it says and what it takes as given."""
import importlib, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import env   # noqa
env.setup(); env.add_solvers()
from vlib.main import PROOFS   # noqa
from pyvc import verify   # noqa
out = ['# Contracts', '', 'Generated by tools/mkcontracts.py. The postconditions themselves are in contracts/pNN.py (functions `v.ensure`); '
       'the obligations of a run are in evidence/<id>.json.', '']
n = 0
for p in sorted(PROOFS):
    importlib.import_module('contracts.' + p.lower())
    out += ['## ' + p, '', '| contract | function | |', '|---|---|---|']
    for c in verify.CONTRACTS[p]:
        doc = ' '.join((c.f.__doc__ if hasattr(c, 'f') else c.spec.__doc__) .split()) if (getattr(c, 'f', None) or c.spec).__doc__ else ''
        out.append('| %s | `%s` | %s |' % (c.name, c.target.replace('ieml.', '', 1), doc.replace('|', '\\|')))
        n += 1
    src = open(os.path.join(V, 'contracts', p.lower() + '.py')).read()
    notes = sorted({re.sub(r"'\s+'", '', m) for m in re.findall(r"v\.(?:trust|assume_note)\(((?:'(?:[^'\\]|\\.)*'\s*)+)\)", src)})
    m = re.search(r"^TRUST = ((?:\(?\s*'[^']*'\s*)+)", src, re.M)
    if m:
        notes.append(re.sub(r"'\s+'", '', m.group(1).strip('( \n')))
    if notes:
        out += ['', 'Taken as given:'] + ['- ' + x.strip().strip("'") for x in notes]
    out.append('')
out.insert(3, '%d contracts.' % n); out.insert(4, '')
open(os.path.join(V, 'CONTRACTS.md'), 'w').write('\n'.join(out))
