#!/usr/bin/env python3
"""Development helper: turn bug specifications into /verif/seeded/<id>/ and try them out in a scratch copy.

seed.py make SPEC.py [ID...]     write patch.diff, demo.sh, demo.py, meta.json and validate in a scratch copy
seed.py try [ID...]              run the claimed property's check (and --all: every check) against each bug
SPEC.py defines SEEDS: list of dict(id, property, needs, breaks, edits=[(file, old, new)], demo=source).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', MPLBACKEND='Agg',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
DEMO = '''#!/bin/bash
# run from the root of a checkout
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
export MPLCONFIGDIR=$(mktemp -d)
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix='seed_')
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    return d, d + '/repo'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **kw.pop('env', {})), capture_output=True, text=True, **kw)


def tests(root):
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'occuprob/tests'], root, env={'PYTHONPATH': root})
    return r.returncode == 0, r.stdout[-600:]


def make(specfile, ids):
    for s in runpy.run_path(specfile)['SEEDS']:
        if ids and s['id'] not in ids:
            continue
        d, root = copy()
        try:
            for f, old, new in s['edits']:
                p = os.path.join(root, f)
                text = open(p).read()
                assert text.count(old) == 1, (s['id'], f, text.count(old), old)
                open(p, 'w').write(text.replace(old, new))
            diff = sh(['git', 'diff'], root).stdout
            assert diff
            out = os.path.join(SEEDED, s['id'])
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            open(out + '/demo.sh', 'w').write(DEMO)
            os.chmod(out + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(out + '/meta.json', 'w'), indent=1)
            ok, text = tests(root)
            bad = sh(['bash', out + '/demo.sh'], root, timeout=300)
            sh(['git', 'checkout', '--', '.'], root)
            good = sh(['bash', out + '/demo.sh'], root, timeout=300)
            state = 'OK' if ok and bad.returncode != 0 and good.returncode == 0 else 'BAD'
            print(state, s['id'], 'tests', ok, 'demo patched', bad.returncode, 'unpatched', good.returncode, flush=True)
            if state == 'BAD':
                print(text if not ok else '', bad.stdout[-500:], good.stdout[-500:], good.stderr[-800:])
            else:
                print('   ', (bad.stderr or bad.stdout).strip().split('\n')[-1][:200])
        finally:
            shutil.rmtree(d)


def attempt(ids, every):
    for i in sorted(os.listdir(SEEDED)):
        if ids and i not in ids:
            continue
        meta = json.load(open(f'{SEEDED}/{i}/meta.json'))
        d, root = copy()
        try:
            r = sh(['git', 'apply', f'{SEEDED}/{i}/patch.diff'], root)
            assert r.returncode == 0, r.stderr
            props = [meta['property']] + ([f'C{k:02d}' for k in range(1, 45) if f'C{k:02d}' != meta['property']] if every else [])
            caught, how = [], ''
            for p in props:
                r = sh([PY, VERIF + '/check.py', p], VERIF, env={'OCCUPROB_REPO': root})
                if r.returncode == 1 and f'VIOLATION property={p}' in r.stdout:
                    caught.append(p)
                    if p == meta['property']:
                        how = [x for x in r.stdout.split('\n') if not x.startswith('KNOWN')][0][:200]
                elif r.returncode:
                    caught.append(f'{p}:exit{r.returncode}')
                    print(r.stdout[-1500:])
            print('CAUGHT' if meta['property'] in caught else 'MISSED', i, meta['property'], caught if every else '', '|', how,
                  flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2], sys.argv[3:])
    else:
        attempt([a for a in sys.argv[2:] if a != '--all'], '--all' in sys.argv)
