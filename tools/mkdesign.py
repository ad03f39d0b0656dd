#!/opt/venv/bin/python
"""DESIGN.md from tools/DESIGN.in.md, the notes of vlib/levels.py and the planted bugs (tools/catches.json: what caught them)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.levels import LEVELS, NOTES, B   # noqa
titles = {d['id']: d['title'] for d in map(json.loads, open(os.path.join(V, 'properties.jsonl')))}
notes = '\n'.join('* **%s** %s. *%s.* %s' % (p, titles[p], LEVELS[p], NOTES[p].replace(B, '').strip()) for p in sorted(NOTES))
notes += '\n\nEvery one has, on top,' + B.replace(' Bounded stand-in on top:', ' a bounded stand-in:')
cj = os.path.join(V, 'tools', 'catches.json')
catches = json.load(open(cj)) if os.path.exists(cj) else {}
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
S = os.path.join(V, 'seeded')
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], str(m['needs']).replace('|', '\\|')[:160], catches.get(d, '')))
s = open(os.path.join(V, 'tools', 'DESIGN.in.md')).read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(s.replace('@@NOTES@@', notes).replace('@@SEEDS@@', '\n'.join(rows)))
