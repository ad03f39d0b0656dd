#!/opt/venv/bin/python
"""mutants.py P02 [module:qualname ...]: soundness test of the deductive part. Mutates the functions under contract (in
scratch copies of /repo) and lists the mutants for which every obligation is still proved."""
import ast, copy, json, os, shutil, subprocess, sys, tempfile, random
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PY = '/opt/venv/bin/python'

SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
NAMES = {'any': 'all', 'all': 'any', 'max': 'min', 'min': 'max', 'True': 'False'}


def find(tree, qual):
    node = tree
    for q in qual.split('.'):
        for c in ast.walk(node):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == q and c is not node:
                node = c
                break
        else:
            return None
    return node


def sites(fn):
    """list of (description, function that mutates a copy of fn given by node path)"""
    nodes = list(ast.walk(fn))
    out = []
    for k, n in enumerate(nodes):
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                if type(op) in SWAP:
                    out.append((k, ln, 'op %d' % i, lambda m, i=i: m.ops.__setitem__(i, SWAP[type(m.ops[i])]())))
        if isinstance(n, ast.BoolOp):
            out.append((k, ln, 'and/or', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And())))
            for i in range(len(n.values)):
                out.append((k, ln, 'drop operand %d' % i, lambda m, i=i: m.values.pop(i)))
        if isinstance(n, ast.Name) and n.id in NAMES:
            out.append((k, ln, n.id, lambda m: setattr(m, 'id', NAMES[m.id])))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            out.append((k, ln, '+1', lambda m: setattr(m, 'value', m.value + 1)))
            if n.value:
                out.append((k, ln, '-1', lambda m: setattr(m, 'value', m.value - 1)))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((k, ln, 'bool', lambda m: setattr(m, 'value', not m.value)))
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr,
                  ast.FloorDiv: ast.Mod, ast.Mod: ast.FloorDiv}
            if type(n.op) in sw and not isinstance(n.left, ast.Constant):
                out.append((k, ln, 'arith', lambda m: setattr(m, 'op', sw[type(m.op)]())))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((k, ln, 'not', 'not'))
        if isinstance(n, ast.If):
            out.append((k, ln, 'if True', lambda m: setattr(m, 'test', ast.Constant(True))))
            out.append((k, ln, 'if False', lambda m: setattr(m, 'test', ast.Constant(False))))
        if isinstance(n, ast.comprehension) and n.ifs:
            out.append((k, ln, 'no filter', lambda m: setattr(m, 'ifs', [])))
        if hasattr(n, 'body') and isinstance(n.body, list):
            for field in ('body', 'orelse'):
                for i, s in enumerate(getattr(n, field, []) or []):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Raise)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append((k, s.lineno, 'drop %s' % type(s).__name__,
                                    lambda m, i=i, field=field: getattr(m, field).__setitem__(i, ast.Pass())))
    return out


def mutate(fn, site):
    k, ln, what, f = site
    m = copy.deepcopy(fn)
    node = list(ast.walk(m))[k]
    if f == 'not':
        class R(ast.NodeTransformer):
            def visit_UnaryOp(self, n):
                if n is node:
                    return n.operand
                return self.generic_visit(n)
        m = R().visit(m)
    else:
        f(node)
        if isinstance(node, ast.BoolOp) and len(node.values) == 0:
            return None
    return ast.fix_missing_locations(m)


def run(prop, path, text, name):
    d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    try:
        for x in ('ieml',):
            shutil.copytree('/repo/' + x, d + '/' + x, symlinks=True)
        open(os.path.join(d, os.path.relpath(path, '/repo')), 'w').write(text)
        e = dict(os.environ, VERIF_REPO=d, W='160')
        try:
            p = subprocess.run([PY, V + '/tools/prove.py', prop] + ([name] if name else []), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=400)
            out = p.stdout.decode()
        except subprocess.TimeoutExpired:
            return 'timeout', []
        bad = [l.strip()[:170] for l in out.splitlines() if l.strip().startswith(('refuted', 'undecided'))]
        if any(b.startswith('refuted') for b in bad):
            return 'refuted', bad
        if bad:
            return 'undecided', bad
        if p.returncode != 0:
            return 'import error', out[-200:]
        return 'SURVIVED', []
    finally:
        shutil.rmtree(d, True)


if __name__ == '__main__':
    from vlib import env
    env.setup(); env.add_solvers()
    import importlib
    prop = sys.argv[1]
    importlib.import_module('contracts.' + prop.lower())
    from pyvc import verify
    targets = [a for a in sys.argv[2:] if ':' in a] or sorted({c.target for c in verify.CONTRACTS[prop]})
    limit = int(os.environ.get('N', 60))
    jobs = []
    for t in targets:
        mod, q = t.split(':')
        path = importlib.import_module(mod).__file__
        src = open(path).read().expandtabs(4)
        fn = find(ast.parse(src), q)
        if not isinstance(fn, ast.FunctionDef):
            print('no function', t)
            continue
        lines = src.split('\n')
        ss = sites(fn)
        random.Random(1).shuffle(ss)
        for s in ss[:limit]:
            m = mutate(fn, s)
            if m is None:
                continue
            new = ast.unparse(m).split('\n')
            ind = ' ' * fn.col_offset
            start = (fn.decorator_list[0].lineno if fn.decorator_list else fn.lineno) - 1
            text = '\n'.join(lines[:start] + [ind + l for l in new] + lines[fn.end_lineno:])
            jobs.append((t, s, path, text))
    count = {}
    with ThreadPoolExecutor(7) as ex:
        for (t, s, path, text), (res, bad) in zip(jobs, ex.map(lambda j: run(prop, j[2], j[3], os.environ.get('ONLY')), jobs)):
            count[res] = count.get(res, 0) + 1
            if res in ('SURVIVED', 'timeout', 'import error') or os.environ.get('ALL') or (res == 'undecided' and os.environ.get('U')):
                print('%-10s %s line %d: %s %s' % (res, t.split(':')[1], s[1], s[2], bad[:2]))
    print(prop, count)
