"""Writes seeded/<id>/ from the definitions in tools/seeds/*.py (each a list SEEDS of dicts: id, property, needs,
what_it_breaks, edits [(file, old, new)], demo (python text)).  Not used by any check."""
import difflib
import glob
import json
import os
import runpy
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; cwd is the repository
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/c" "$d/d" "$d/h" "$d/w"
export XDG_CACHE_HOME="$d/c" XDG_DATA_HOME="$d/d" HOME="$d/h" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" \\
  PYTHONHASHSEED=0 TQDM_DISABLE=1 DEMO_WORK="$d/w"
exec_dir=$(cd "$(dirname "$0")" && pwd)
timeout 280 /opt/venv/bin/python "$exec_dir/demo.py" 2>"$d/err" || { tail -5 "$d/err"; exit 1; }
'''


def main(only=()):
    for f in sorted(glob.glob(os.path.join(VERIF, 'tools', 'seeds', '*.py'))):
        for s in runpy.run_path(f)['SEEDS']:
            if only and s['id'] not in only:
                continue
            d = os.path.join(VERIF, 'seeded', s['id'])
            os.makedirs(d, exist_ok=True)
            files = {}
            for path, old, new in s['edits']:
                src = files.setdefault(path, [open('/repo/' + path).read()] * 2)
                assert src[1].count(old) == 1, (s['id'], path, old, src[1].count(old))
                files[path] = [src[0], src[1].replace(old, new)]
            out = ''
            for path, (a, b) in sorted(files.items()):
                for l in difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + path, 'b/' + path):
                    out += l if l.endswith('\n') else l + '\n\\ No newline at end of file\n'
            open(os.path.join(d, 'patch.diff'), 'w').write(out)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what_it_breaks']),
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)


main(sys.argv[1:])
