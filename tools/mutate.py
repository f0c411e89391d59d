#!/usr/bin/env python3
"""Development helper: mutate the code under test in scratch copies and see which checks notice.

mutate.py list                      print all mutants
mutate.py run OUT.jsonl [LANES]     for every mutant that imports and passes the unit tests: run the checks
                                    in ORDER until one reports it; append a line per mutant to OUT.jsonl
"""
import ast
import copy
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = '/repo'
FILES = ['occuprob/utils.py', 'occuprob/partitionfunctions.py', 'occuprob/superpositions.py',
         'occuprob/io.py', 'occuprob/cli.py', 'occuprob/_version.py']
ORDER = {
    'utils': ['C22', 'C23', 'C06', 'C02', 'C01', 'C04', 'C13', 'C11', 'C03', 'C05', 'C41', 'C32', 'C39'],
    'partitionfunctions': ['C06', 'C02', 'C03', 'C13', 'C04', 'C01', 'C05', 'C11', 'C32', 'C41', 'C16', 'C24', 'C08', 'C10', 'C07', 'C39'],
    'superpositions': ['C07', 'C12', 'C43', 'C02', 'C03', 'C14', 'C01', 'C04', 'C13', 'C11', 'C06', 'C05', 'C32', 'C41', 'C39'],
    'io': ['C15', 'C16', 'C21', 'C25', 'C17', 'C18', 'C20', 'C24', 'C42', 'C40'],
    'cli': ['C19', 'C20', 'C25', 'C18', 'C44', 'C21', 'C14', 'C26', 'C24', 'C30', 'C33', 'C40'],
    '_version': ['C26'],
}
VERSION_FUNCS = {'git_pieces_from_vcs', 'plus_or_dot', 'render_pep440', 'git_versions_from_keywords', 'get_versions',
                 'get_config', 'git_get_keywords', 'render'}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}
NAMES = {'sum': ['mean'], 'prod': ['sum'], 'amax': ['amin'], 'amin': ['amax'], 'sqrt': ['cbrt'], 'exp': ['expm1'], 'log': ['log1p'],
         'sinh': ['tanh'], 'tanh': ['sinh'], 'maximum': ['minimum'], 'minimum': ['maximum'], 'vstack': ['hstack'], 'ceil': ['floor'],
         'zeros': ['ones'], 'ones': ['zeros'], 'zeros_like': ['ones_like'], 'ones_like': ['zeros_like'], 'all': ['any'], 'extend': ['append'],
         'append': ['extend'], 'mean': ['median'], 'splitext': ['split'], 'log10': ['log'], 'lower': ['upper'], 'upper': ['lower'],
         'startswith': ['endswith'], 'endswith': ['startswith']}


def mutants_of(tree):
    """Yield (description, lineno, apply) where apply(node_in_copy) edits in place; nodes by index in ast.walk order."""
    nodes = list(ast.walk(tree))
    docs = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))
    inside = {}
    for n in nodes:
        if isinstance(n, ast.FunctionDef):
            for m in ast.walk(n):
                inside[id(m)] = n.name
        if isinstance(n, ast.keyword) and n.arg == 'help' or isinstance(n, ast.JoinedStr):
            docs.update(id(m) for m in ast.walk(n))
    for i, n in enumerate(nodes):
        if id(n) in docs:
            continue
        line = getattr(n, 'lineno', 0)
        fn = inside.get(id(n), '')
        if isinstance(n, ast.Compare):
            for alt in CMP.get(type(n.ops[0]), []):
                yield i, line, fn, f'cmp {type(n.ops[0]).__name__}->{alt.__name__}', lambda m, a=alt: m.ops.__setitem__(0, a())
        if isinstance(n, ast.BinOp) and not (isinstance(n.op, ast.Mod)):
            for alt in BIN.get(type(n.op), []):
                yield i, line, fn, f'bin {type(n.op).__name__}->{alt.__name__}', lambda m, a=alt: setattr(m, 'op', a())
            yield i, line, fn, 'bin->left', lambda m: ('replace', m.left)
            yield i, line, fn, 'bin->right', lambda m: ('replace', m.right)
        if isinstance(n, ast.AugAssign):
            for alt in BIN.get(type(n.op), []):
                yield i, line, fn, f'aug {type(n.op).__name__}->{alt.__name__}', lambda m, a=alt: setattr(m, 'op', a())
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield i, line, fn, 'drop unary', lambda m: ('replace', m.operand)
        if isinstance(n, ast.BoolOp):
            alt = ast.And if isinstance(n.op, ast.Or) else ast.Or
            yield i, line, fn, 'and<->or', lambda m, a=alt: setattr(m, 'op', a())
        if isinstance(n, (ast.If, ast.IfExp)):
            yield i, line, fn, 'if true', lambda m: setattr(m, 'test', ast.Constant(True))
            yield i, line, fn, 'if false', lambda m: setattr(m, 'test', ast.Constant(False))
        if isinstance(n, ast.Constant) and not isinstance(n.value, bool):
            if isinstance(n.value, int):
                for v in (n.value + 1, n.value - 1):
                    yield i, line, fn, f'const {n.value}->{v}', lambda m, v=v: setattr(m, 'value', v)
            elif isinstance(n.value, float):
                for v in (n.value * 1.001 if n.value else 1e-3, n.value * 2 if n.value else 1.0, -n.value):
                    yield i, line, fn, f'const {n.value}->{v}', lambda m, v=v: setattr(m, 'value', v)
            elif isinstance(n.value, str) and n.value:
                yield i, line, fn, f'str {n.value[:20]!r}->+x', lambda m: setattr(m, 'value', m.value + 'x')
                yield i, line, fn, f'str {n.value[:20]!r}->empty', lambda m: setattr(m, 'value', '')
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield i, line, fn, 'flip bool', lambda m: setattr(m, 'value', not m.value)
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            for v in NAMES[n.attr]:
                yield i, line, fn, f'{n.attr}->{v}', lambda m, v=v: setattr(m, 'attr', v)
        if isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                yield i, line, fn, f'drop kw {kw.arg}', lambda m, k=k: m.keywords.pop(k) and None
            if len(n.args) == 2:
                yield i, line, fn, 'swap args', lambda m: m.args.reverse()
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Attribute):
                yield i, line, fn, f'call {n.func.attr}()->arg', lambda m: ('replace', m.args[0])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
            yield i, line, fn, f'call .{n.func.attr}()->object', lambda m: ('replace', m.func.value)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.keywords and not n.args:
            yield i, line, fn, f'call .{n.func.attr}(kw)->object', lambda m: ('replace', m.func.value)
        if isinstance(n, ast.Subscript):
            yield i, line, fn, 'drop subscript', lambda m: ('replace', m.value)
        if isinstance(n, (ast.Expr, ast.AugAssign)) and inside.get(id(n)):
            yield i, line, fn, 'delete statement', lambda m: ('replace', ast.Pass())
        if isinstance(n, ast.Raise):
            yield i, line, fn, 'delete raise', lambda m: ('replace', ast.Pass())
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            yield i, line, fn, 'return None', lambda m: setattr(m, 'value', ast.Constant(None))


def all_mutants():
    out = []
    for f in FILES:
        text = open(os.path.join(SRC, f)).read()
        tree = ast.parse(text)
        for k, (i, line, fn, desc, app) in enumerate(mutants_of(tree)):
            if f.endswith('_version.py') and fn not in VERSION_FUNCS:
                continue
            out.append((f, k, i, line, fn, desc, app))
    return out


def mutated(f, i, app):
    tree = ast.parse(open(os.path.join(SRC, f)).read())
    nodes = list(ast.walk(tree))
    node = nodes[i]
    r = app(node)
    if isinstance(r, tuple) and r[0] == 'replace':
        class T(ast.NodeTransformer):
            def visit(self, n):
                if n is node:
                    return copy.deepcopy(r[1])
                return self.generic_visit(n)
        tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def run(outfile, lanes):
    done = set()
    if os.path.exists(outfile):
        done = {(d['file'], d['k']) for d in map(json.loads, open(outfile))}
    q = queue.Queue()
    wanted = os.environ.get('MUT_FILES', '').split()
    for m in all_mutants():
        if (m[0], m[1]) not in done and (not wanted or os.path.basename(m[0])[:-3] in wanted):
            q.put(m)
    lock = threading.Lock()

    def lane():
        base = tempfile.mkdtemp(prefix='mut_')
        root = base + '/repo'
        subprocess.run(['cp', '-a', '/repo', root], check=True)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OCCUPROB_REPO=root, OCCU_PBT_SHARDS=os.environ.get('MUT_SHARDS', '2'),
                   OCCU_EVIDENCE=base, OCCU_PBT_FAILFAST='1', OCCU_PBT_SCALE=os.environ.get('MUT_SCALE', '0.3'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
        try:
            while True:
                try:
                    f, k, i, line, fn, desc, app = q.get_nowait()
                except queue.Empty:
                    return
                target = os.path.join(root, f)
                rec = {'file': f, 'k': k, 'line': line, 'fn': fn, 'desc': desc}
                try:
                    code = mutated(f, i, app)
                    if code == ast.unparse(ast.parse(open(os.path.join(SRC, f)).read())):
                        continue
                    open(target, 'w').write(code)
                    try:
                        r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'occuprob/tests'], cwd=root,
                                           env=dict(env, PYTHONPATH=root), capture_output=True, timeout=120)
                        ok = r.returncode == 0
                    except subprocess.TimeoutExpired:
                        ok = False
                    rec['tests'] = ok
                    if ok:
                        rec['caught'] = None
                        rec['others'] = []
                        for p in ORDER[os.path.basename(f)[:-3]]:
                            r = subprocess.run([PY, VERIF + '/check.py', p], env=env, capture_output=True, text=True)
                            if r.returncode == 1:
                                rec['caught'] = p
                                rec['how'] = [x for x in r.stdout.split('\n') if not x.startswith('KNOWN')][0][:160]
                                break
                            if r.returncode:
                                rec['others'].append([p, r.returncode, r.stdout[-400:]])
                except Exception as exc:  # noqa: BLE001
                    rec['error'] = repr(exc)
                finally:
                    shutil.copy(os.path.join(SRC, f), target)
                with lock, open(outfile, 'a') as fh:
                    fh.write(json.dumps(rec) + '\n')
        finally:
            shutil.rmtree(base, ignore_errors=True)
    threads = [threading.Thread(target=lane) for _ in range(lanes)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        for m in all_mutants():
            print(m[0], m[1], 'line', m[3], m[4], m[5])
    else:
        run(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 3)
