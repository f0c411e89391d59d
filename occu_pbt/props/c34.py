"""C34: distributions carry the whole package and the version of the revision they were made from."""
import glob
import io
import os
import shutil
import subprocess
import sys
import tarfile
import uuid
import zipfile

from hypothesis import strategies as st

from .. import clirun, env
from ..core import Test, Violation, require
from . import c26

BUDGET = 240
SKIP = {'.git', '__pycache__', 'build', 'dist', '.pytest_cache', '.eggs'}


class Checkout(c26.Checkout):
    """A checkout of everything in the repository."""

    def copy(self, root):
        def ignored(path, names):
            return [n for n in names if n in SKIP or n.endswith(('.egg-info', '.pyc'))]
        shutil.copytree(env.REPO, root, ignore=ignored)


def program(args, cwd, root, git_dir=None, path=None):
    """Run Python on args; (exit status, output, messages)."""
    full = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': root, 'TMPDIR': root, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1',
            'MPLCONFIGDIR': os.environ['MPLCONFIGDIR'], 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore'}
    if git_dir:
        full['GIT_DIR'] = git_dir
    if path:
        full['PYTHONPATH'] = path
    try:
        r = subprocess.run([sys.executable] + args, cwd=cwd, env=full, capture_output=True, timeout=BUDGET, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as exc:
        raise env.HarnessError(f'{args}: no answer within {BUDGET} s') from exc
    return r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')


def setup_py(cwd, root, git_dir, *args):
    """setup.py ARGS in cwd, writing below root only."""
    verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code, out, err = program(['-m', 'occu_pbt.fenced', root, os.path.join(cwd, 'setup.py')] + list(args), cwd, root, git_dir, verif)
    if 'outside the scratch directory' in err:
        raise Violation(f'setup.py {args}: {err[-300:]}')
    require(code == 0, 'setup.py %s in a checkout: exit status %s, %s', ' '.join(args), code, err[-400:])
    return out


def package(root):
    """name -> content of what belongs to the package."""
    return {k: v for k, v in clirun.snapshot(os.path.join(root, 'occuprob')).items()
            if v is not None and not k.endswith('.pyc') and k != '_version.py'}


def unpack(path, into):
    os.makedirs(into)
    if path.endswith('.whl'):
        with zipfile.ZipFile(path) as z:
            z.extractall(into)
        return into
    with tarfile.open(path) as tar:
        tar.extractall(into, filter='data')
    return os.path.join(into, os.listdir(into)[0])


def the_file(pattern, what):
    found = glob.glob(pattern)
    require(len(found) == 1, '%s: %s files made', what, len(found))
    return found[0]


def metadata(text, key):
    return [line.split(':', 1)[1].strip() for line in text.splitlines() if line.startswith(key + ':')]


def check(case, rec):
    from packaging.version import Version
    route = case['route']
    with clirun.workdir() as wd:
        wd = os.path.realpath(wd)
        root = os.path.join(wd, case['dir'])
        co = Checkout(root, 'main')
        decoy = os.path.join(wd, 'other')
        os.mkdir(decoy)
        c26.git(decoy, 'init', '-q')
        c26.git(decoy, 'commit', '-q', '--allow-empty', '-m', 'x')
        c26.git(decoy, 'tag', '99.9')
        for op in case['ops']:
            co.step(op)
        git_dir = os.path.join(decoy, '.git') if case['git_dir'] else None
        want = c26.reported(root, root, None)['versioneer']
        ver = c26.judge(co, want, 'setup.py')
        state = f'{route} of {ver}'
        expected, before = package(root), clirun.snapshot(root)
        # somewhere else, perhaps below a checkout of something else
        below = decoy if case['below'] else wd
        source, where = root, root
        if route.startswith('archive'):
            where = source = os.path.join(below, 'archive')
            os.mkdir(source)
            with tarfile.open(fileobj=io.BytesIO(c26.git(root, 'archive', '--format=tar', 'HEAD'))) as tar:
                tar.extractall(source, filter='data')
            expected = {k: v for k, v in expected.items() if f'occuprob/{k}' not in co.work}
            expected.update({f[9:]: t.encode() for f, t in co.content[co.head].items() if t is not None and f.startswith('occuprob/')})
        if route.startswith('sdist'):
            for _ in range(case['times']):
                out = os.path.join(wd, 'sdist' + uuid.uuid4().hex)
                setup_py(root, wd, git_dir, '-q', 'sdist', '-d', out)
            source = unpack(the_file(os.path.join(out, '*.tar.gz'), state), os.path.join(below, 'unpacked'))
            require(package(source) == expected, '%s: files of the package: %s', state, differ(package(source), expected))
            for f in ('setup.py', 'setup.cfg', 'versioneer.py', 'LICENSE', 'README.md'):
                require(os.path.isfile(os.path.join(source, f)), '%s: %s is missing', state, f)
            judge(source, source, want, state)
        lib = None
        if route.endswith('wheel'):
            for _ in range(case['times']):
                out = os.path.join(wd, 'wheel' + uuid.uuid4().hex)
                setup_py(source, wd, git_dir, '-q', 'bdist_wheel', '-d', out)
            lib = unpack(the_file(os.path.join(out, '*.whl'), state), os.path.join(below, 'site packages'))
            meta = open(the_file(os.path.join(lib, '*.dist-info', 'METADATA'), state)).read()
            entry = open(the_file(os.path.join(lib, '*.dist-info', 'entry_points.txt'), state)).read()
            if not route.startswith('archive') or co.tags[co.head]:
                require([Version(v) for v in metadata(meta, 'Version')] == [Version(c26_version(lib))], '%s: metadata says %s, the package %s',
                        state, metadata(meta, 'Version'), c26_version(lib))
            require([n.lower() for n in metadata(meta, 'Name')] == ['occuprob'], '%s: name %s', state, metadata(meta, 'Name'))
            points = dict(map(str.strip, line.split('=')) for line in entry.splitlines() if '=' in line)
            require('occuprob' in points, '%s: no program occuprob in %s', state, points)
        elif route.endswith('build'):
            out = os.path.join(below, 'built')
            setup_py(source, wd, git_dir, '-q', 'build_py', '--build-lib', out)
            lib, points = out, {'occuprob': 'occuprob.cli:main'}
        if lib:
            require(package(lib) == expected, '%s: files of the package: %s', state, differ(package(lib), expected))
            if route.startswith('archive'):
                got = c26.load(os.path.join(lib, 'occuprob', '_version.py')).get_versions()
                require(got['full-revisionid'] == co.hash[co.head], '%s: revision %s', state, got['full-revisionid'])
                require(not co.tags[co.head] or got['version'] in co.tags[co.head], '%s: version %s', state, got['version'])
                ver = got['version']
            else:
                judge(lib, None, want, state)
            if case['run']:
                mod, attr = points['occuprob'].split(':')
                call = f'import sys, {mod} as m; assert m.__file__.startswith({lib!r}), m.__file__; sys.exit(m.{attr}())'
                code, text, err = program(['-c', call, '--version'], below, wd, git_dir, lib)
                require(code == 0 and text.split()[-1:] == [ver], '%s: the installed program reports %r (exit status %s, %s)', state, text, code, err[-300:])
                data = os.path.join(lib, 'occuprob', 'data', 'test.xyz')
                code, text, err = program(['-c', call, '-s', '-q', '-r', '--max_temp', '9', '--out_file', os.path.join(wd, 'res'), data],
                                          below, wd, git_dir, lib)
                require(code == 0, '%s: the installed program fails: %s', state, err[-400:])
                for k in 'PC':
                    clirun.read_table(os.path.join(wd, f'res_{k}.dat'), state)
        if not route.startswith('archive'):
            after = {k: v for k, v in clirun.snapshot(root).items() if not k.startswith(('build/', 'dist/', 'occuprob.egg-info/', '.git/'))}
            before = {k: v for k, v in before.items() if not k.startswith('.git/')}
            require(after == before, '%s: the checkout was changed: %s', state, differ(after, before))
            again = c26.reported(root, root, None)['versioneer']
            require(again == want, '%s: the checkout reports %s afterwards', state, again['version'])
    rec(route, 'modified' if co.dirty() else 'clean', 'tagged' if co.tags[co.head] else 'untagged', 'program run' if lib and case['run'] else 'not run',
        'below another checkout' if case['below'] else 'elsewhere', nontrivial=bool(case['ops']))


def differ(got, want):
    return {k: 'absent' if k not in got else 'unexpected' if k not in want else 'different'
            for k in sorted(set(got) | set(want)) if got.get(k, 0) != want.get(k, 0)}


def c26_version(root):
    return c26.load(os.path.join(root, 'occuprob', '_version.py')).get_versions()['version']


def judge(root, source, want, state):
    """The package at root (and setup.py at source) report what the checkout reported."""
    got = {'_version': c26.load(os.path.join(root, 'occuprob', '_version.py')).get_versions()}
    if source:
        got['setup.py'] = c26.reported(source, source, None)['versioneer']
    for who, r in got.items():
        for key in ('version', 'full-revisionid', 'dirty', 'error'):
            require(r[key] == want[key], '%s: %s of the distribution says %s %r, the checkout %r', state, who, key, r[key], want[key])


@st.composite
def cases(draw):
    num = st.integers(0, 60)
    name = st.sampled_from(['commit', 'tag', 'tag', 'modify', 'delete', 'restore', 'untracked', 'goto', 'empty-commit'])
    return {'ops': draw(st.lists(st.tuples(name, num, num).map(list), max_size=5)),
            'route': draw(st.sampled_from(['sdist', 'wheel', 'build', 'sdist, wheel', 'sdist, wheel', 'sdist, build', 'archive, wheel'])),
            'dir': draw(st.sampled_from(['occuprob', 'a b', 'OccuProb-1.0', 'None', 'x.git'])), 'git_dir': draw(st.booleans()),
            'below': draw(st.booleans()), 'times': draw(st.sampled_from([1, 1, 2])), 'run': draw(st.integers(0, 2)) == 0}


TESTS = [Test('distributions', cases, check, 160, 3000, rule='the checkout has a history of its own')]
