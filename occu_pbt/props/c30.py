"""C30: real runs are reproducible and report their outcome, whatever the environment."""
import os
import subprocess
import sys

from hypothesis import strategies as st

from .. import clirun, cligen, env, molgen
from ..core import Test, require

LOCALES = ['C', 'C.UTF-8', 'POSIX', 'de_DE.UTF-8', 'fr_FR', 'en_US.UTF-8', '']
ZONES = ['UTC', 'Asia/Kolkata', 'America/St_Johns', ':/nonexistent']
BUDGET = 240        # seconds for one program


def real_run(argv, cwd, setting):
    full = {'PATH': '/usr/bin:/bin', 'HOME': cwd, 'PYTHONPATH': env.REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1',
            'MPLCONFIGDIR': os.environ['MPLCONFIGDIR'], 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
            'PYTHONHASHSEED': str(setting['hash'])}
    if setting['columns']:
        full['COLUMNS'] = str(setting['columns'])
    if setting['locale'] is not None:
        full.update(LC_ALL=setting['locale'], LANG=setting['locale'])
    if setting['zone'] is not None:
        full['TZ'] = setting['zone']
    if sys.pycache_prefix:
        full['PYTHONPYCACHEPREFIX'] = sys.pycache_prefix
    try:
        r = subprocess.run([sys.executable, '-m', 'occuprob.cli'] + [str(a) for a in argv], cwd=cwd, env=full, capture_output=True,
                           timeout=BUDGET, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as exc:
        raise env.HarnessError(f'{argv}: no answer within {BUDGET} s') from exc
    return r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')


def check(case, rec):
    outcome = case['outcome']
    with clirun.workdir() as wd:
        results = []
        for i, setting in enumerate(case['settings']):
            base = os.path.join(wd, f'run{i}', *setting['below'])
            os.makedirs(base)
            path = cligen.write(base, case['frames'])
            before = set(clirun.snapshot(wd))
            here = {'same': base, 'above': os.path.dirname(base), 'root': wd}[setting['cwd']]
            name = path if setting['absolute'] else os.path.relpath(path, here)
            args = [name if a == 'in.xyz' else a for a in case['args']]
            if outcome == 'missing':
                args = [os.path.join(os.path.dirname(name), 'absent.xyz') if a == name else a for a in args]
            code, out, err = real_run(args, here, setting)
            new = {k: v for k, v in clirun.snapshot(wd).items() if k not in before}
            what = f'run {i + 1} of {args} ({ {k: v for k, v in setting.items() if k != "below"} })'
            prefix = os.path.relpath(os.path.join(base, 'in'), wd)
            if outcome == 'tables':
                require(code == 0, '%s: exit status %s, %s', what, code, err[-300:])
                require(set(new) == {prefix + '_P.dat', prefix + '_C.dat'}, '%s: created %s', what, sorted(new))
                results.append((new[prefix + '_P.dat'], new[prefix + '_C.dat']))
            elif outcome == 'version':
                require(code == 0, '%s: exit status %s, %s', what, code, err[-300:])
                require(not new, '%s: created %s', what, sorted(new))
                require(out.strip() != '', '%s: printed nothing', what)
                results.append(''.join(out.split()))    # wrapped to the width of the terminal
            else:
                require(code != 0, '%s: exit status 0 although it can not have worked', what)
                require(not new, '%s: created %s', what, sorted(new))
                require(err.strip() != '', '%s: failed without a message', what)
                if outcome == 'usage':
                    require(code == 2, '%s: exit status %s for a usage error', what, code)
                results.append(code)
        for i, r in enumerate(results[1:]):
            if r != results[0]:
                part = {'tables': 'tables', 'version': 'version'}.get(outcome, 'exit status')
                require(False, '%s differ between environments %s and %s', part, case['settings'][0], case['settings'][i + 1])
        if outcome == 'tables':
            # and the same as a run inside this process
            base = os.path.join(wd, 'inside')
            os.makedirs(base)
            cligen.write(base, case['frames'])
            clirun.run(case['args'], base).ok('run within a process')
            for key, data in zip('PC', results[0]):
                with open(os.path.join(base, f'in_{key}.dat'), 'rb') as fh:
                    require(fh.read() == data, 'in_%s.dat of a program differs from that of a call', key)
    rec(f'outcome:{outcome}', f"locale:{case['settings'][0]['locale']}", f"cwd:{case['settings'][0]['cwd']}",
        nontrivial=outcome == 'tables' and len(case['frames']) > 1)


setting_ = st.fixed_dictionaries({
    'hash': st.one_of(st.just('random'), st.integers(0, 4294967295)), 'columns': st.sampled_from([0, 0, 20, 300]),
    'locale': st.one_of(st.none(), st.sampled_from(LOCALES)), 'zone': st.one_of(st.none(), st.sampled_from(ZONES)),
    'cwd': st.sampled_from(['same', 'same', 'above', 'root']), 'absolute': st.booleans(),
    'below': st.sampled_from([['a'], ['with space'], ['ünï'], ['a.b'], ['_P'], ['deep', 'er', '1.5']])})


@st.composite
def cases(draw):
    outcome = draw(st.sampled_from(['tables'] * 5 + ['usage', 'missing', 'version']))
    kinds, tokens = draw(cligen.flags())
    case = draw(molgen.isomer_file(nmin=1, nmax=4, molecules=cligen.rotor_molecules(kinds), modes=st.integers(1, 6), extras=False, close=True))
    options = []
    lo = draw(st.sampled_from([None, '0', '10', '0.5']))
    if lo:
        options.append(cligen.option(draw, '--min_temp', lo))
    options.append(cligen.option(draw, '--max_temp', str(draw(st.integers(10, 120)))))
    if outcome == 'usage':
        extra = draw(st.sampled_from([['-e', '-s'], ['-C', '-Q'], ['--no_such_option'], ['-x'], ['--max_temp', 'warm'], ['--size', '4'],
                                      ['second.xyz']]))
        tokens = [t for t in tokens if extra[0] not in ('-e', '-C')] + extra
        case['args'] = ['in.xyz'] + tokens
    elif outcome == 'version':
        case['args'] = ['--version']
    else:
        case['args'] = cligen.assemble(draw, 'in.xyz', tokens, options)
    case['settings'] = draw(st.lists(setting_, min_size=2, max_size=2 if outcome != 'tables' else 3))
    case['outcome'] = outcome
    return case


TESTS = [Test('environments', cases, check, 72, 1600, rule='tables of two or more isomers compared between environments')]
