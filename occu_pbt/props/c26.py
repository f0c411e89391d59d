"""C26: version strings are valid and identify the revision."""
import importlib.util
import io
import os
import re
import shutil
import subprocess
import tarfile
import uuid

from hypothesis import strategies as st

from .. import clirun, env
from ..common import quiet
from ..core import Test, Violation, require, sut

PEP440 = re.compile(r'v?(?:\d+!)?\d+(?:\.\d+)*(?:[-_.]?(?:a|b|c|rc|alpha|beta|pre|preview)[-_.]?\d*)?'
                    r'(?:-\d+|[-_.]?(?:post|rev|r)[-_.]?\d*)?(?:[-_.]?dev[-_.]?\d*)?'
                    r'(?:\+[a-z0-9]+(?:[-_.][a-z0-9]+)*)?\Z', re.I)
TAGS = ['0.1.0', '1.0', '2.0rc1', '1.0.post1', '1.0a1', '0.3.dev1', '1!2.0', '1.0+local.1', '2022.4', '10.20.30',
        '1.0-rc2', '3.1-1', '0.9', '4', '2.1b3.dev4', '0', '1.2.3.4']
FILES = ['occuprob/data.txt', 'NOTES', 'a b.txt']


def git(root, *args, n=0):
    e = dict(os.environ, GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a@example.org', GIT_COMMITTER_NAME='a',
             GIT_COMMITTER_EMAIL='a@example.org', GIT_AUTHOR_DATE=f'{1600000000 + 60 * n} +0000',
             GIT_COMMITTER_DATE=f'{1600000000 + 60 * n} +0000')
    e.pop('GIT_DIR', None)
    out = subprocess.run(['git', *args], cwd=root, env=e, stdin=subprocess.DEVNULL, capture_output=True)
    if out.returncode:
        raise env.HarnessError(f'git {args}: {out.stderr.decode()}')
    return out.stdout


def load(path):
    spec = importlib.util.spec_from_file_location('occu_pbt_version_' + uuid.uuid4().hex, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def reported(root, cwd, git_dir, with_build=True):
    """What occuprob._version of that checkout reports, and what setup.py would use."""
    out, old, old_dir = {}, os.getcwd(), os.environ.get('GIT_DIR')
    try:
        if git_dir:
            os.environ['GIT_DIR'] = git_dir
        with clirun.fence(root), quiet(), sut('version of the checkout'):
            os.chdir(cwd)
            out['occuprob._version'] = load(os.path.join(root, 'occuprob', '_version.py')).get_versions()
            os.chdir(root)
            if with_build:
                out['versioneer'] = load(os.path.join(root, 'versioneer.py')).get_versions()
    finally:
        os.chdir(old)
        if git_dir:
            os.environ.pop('GIT_DIR', None)
            if old_dir is not None:
                os.environ['GIT_DIR'] = old_dir
    return out


class Checkout:
    """The history as the check knows it, and the directory."""

    def __init__(self, root, branch, store=None):
        self.root, self.count, self.edits = root, 0, 0
        self.parent, self.hash, self.tags, self.content = {}, {}, {}, {}
        self.copy(root)
        self.work = {f: '0\n' for f in FILES}
        for f, text in self.work.items():
            self.put(f, text)
        # with a store elsewhere, .git is a file, as in submodules and linked worktrees
        git(root, 'init', '-q', '-b', branch, *(['--separate-git-dir', store] if store else []))
        git(root, 'add', '-A')
        self.branches = {branch: None}
        self.branch = branch
        self.commit(None)

    def copy(self, root):
        os.makedirs(os.path.join(root, 'occuprob'))
        for f in ('occuprob/_version.py', 'versioneer.py', 'setup.cfg', 'setup.py', '.gitattributes'):
            shutil.copy(os.path.join(env.REPO, f), os.path.join(root, f))

    def put(self, f, text):
        path = os.path.join(self.root, f)
        if text is None:
            if os.path.exists(path):
                os.remove(path)
        else:
            with open(path, 'w') as fh:
                fh.write(text)
        self.work[f] = text

    def commit(self, parent):
        self.stage()
        git(self.root, 'commit', '-q', '--allow-empty', '-m', f'c{self.count}', n=self.count)
        k = self.count
        self.count += 1
        self.parent[k], self.tags[k] = parent, []
        self.hash[k] = git(self.root, 'rev-parse', 'HEAD').decode().strip()
        self.content[k] = dict(self.work)
        self.head = k
        if self.branch:
            self.branches[self.branch] = k

    def stage(self):
        git(self.root, 'add', '-u')
        there = [f for f in FILES if self.work[f] is not None]
        if there:
            git(self.root, 'add', '--', *there)

    def dirty(self):
        return self.work != self.content[self.head]

    def base(self):
        """(nearest tagged ancestor or None, number of commits since)"""
        k, d = self.head, 0
        while k is not None:
            if self.tags[k]:
                return k, d
            k, d = self.parent[k], d + 1
        return None, d

    def step(self, op):
        name, a, b = op
        f = FILES[a % len(FILES)]
        if name == 'commit':
            self.put(f, f'{self.count}\n')
            self.commit(self.head)
        elif name == 'empty-commit':
            self.commit(self.head)
        elif name == 'tag':
            tag = TAGS[a % len(TAGS)]
            if not any(tag in t for t in self.tags.values()):
                git(self.root, 'tag', *(['-a', '-m', 'x'] if b % 2 else []), tag, n=self.count)
                self.tags[self.head].append(tag)
        elif name == 'modify':
            self.edits += 1
            self.put(f, f'changed {self.edits}\n')
            if b % 3 == 0 or self.content[self.head][f] is None:
                self.stage()
        elif name == 'delete':
            self.put(f, None)
            if b % 3 == 0 or self.content[self.head][f] is None:
                self.stage()
        elif name == 'restore':
            for g in FILES:
                self.put(g, self.content[self.head][g])
            self.stage()
        elif name == 'untracked':
            with open(os.path.join(self.root, f'untracked{a % 3}'), 'w') as fh:
                fh.write('x')
        elif name == 'goto':
            k = a % self.count
            if not self.dirty():
                git(self.root, 'checkout', '-q', '--detach', self.hash[k])
                self.branch, self.head, self.work = None, k, dict(self.content[k])
        elif name == 'pack':
            git(self.root, 'pack-refs', '--all')
        elif name == 'branch':
            label = ['topic', '2.0-branch', 'rel/1.0', 'master'][a % 4]
            if label not in self.branches:
                git(self.root, 'checkout', '-q', '-b', label)
                self.branch = label
                self.branches[label] = self.head


def judge(co, got, who):
    ver, dirty = got['version'], co.dirty()
    at, dist = co.base()
    full = co.hash[co.head]
    state = f'{who}: {"modified" if dirty else "clean"}, {dist} commits after {co.tags[at] if at is not None else "the root"}'
    require(isinstance(ver, str) and PEP440.match(ver), '%s: %r is not a PEP 440 version', state, ver)
    require(got['full-revisionid'] == full, '%s: full revision %s, HEAD is %s', state, got['full-revisionid'], full)
    require(got['dirty'] is dirty, '%s: dirty reported as %r', state, got['dirty'])
    require(got['error'] is None, '%s: error %r', state, got['error'])
    tags = co.tags[co.head]
    if tags and not dirty:
        require(ver in tags, '%s: version %r', state, ver)
        return ver
    require(ver not in sum(co.tags.values(), []), '%s: version %r is that of a tagged revision', state, ver)
    if at is not None:
        rest = [ver[len(t):] for t in co.tags[at] if ver.startswith(t + '+') or ('+' in t and ver.startswith(t + '.'))]
        require(rest, '%s: version %r does not start with the tag', state, ver)
        rest = min(rest, key=len)
    else:
        require(ver.startswith('0+'), '%s: version %r', state, ver)
        rest = ver[1:]
    parts = re.split('[.+]', rest)[1:]
    require(str(dist) in parts, '%s: no distance %s in version %r', state, dist, ver)
    revs = [p[1:] for p in parts if re.fullmatch('g[0-9a-f]{4,40}', p)]
    require(revs and all(full.startswith(r) for r in revs), '%s: no short revision of %s in version %r', state, full, ver)
    require(('dirty' in parts) == dirty, '%s: dirty marker in version %r', state, ver)
    return ver


def check(case, rec):
    with clirun.workdir() as wd:
        wd = os.path.realpath(wd)
        root = os.path.join(wd, case['dir'])
        decoy = os.path.join(wd, 'other.git')
        git(wd, 'init', '-q', '--bare', decoy)
        co = Checkout(root, case['start'], os.path.join(wd, 'store.git') if case.get('store') else None)
        seen, states = {}, set()
        for op in case['ops']:
            if op[0] == 'archive':
                archive(co, wd, rec)
                continue
            co.step(op)
            got = reported(root, [root, wd, '/'][op[1] % 3], decoy if case['git_dir'] else None, op[2] % 3 == 0)
            ver = {who: judge(co, r, who) for who, r in got.items()}
            require(len(set(ver.values())) == 1, 'version of the package and of setup.py differ: %s', ver)
            ver = ver['occuprob._version']
            state = (co.head, co.dirty())
            require(seen.setdefault(ver, state) == state, 'version %r reported for two states: %s and %s', ver, seen[ver], state)
            states.add((bool(co.tags[co.head]), co.dirty(), co.base()[0] is not None))
            if op[2] % 9 == 0:
                built(co, wd, got['versioneer'])
        for s in states:
            rec(f'{"tagged" if s[0] else "untagged"}, {"modified" if s[1] else "clean"}')
        rec(f'commits:{min(co.count, 5)}', f'.git is a {"file" if case.get("store") else "directory"}', f'detached:{co.branch is None}', nontrivial=len(states) > 1)


def archive(co, wd, rec):
    """git archive HEAD, unpacked elsewhere."""
    data = git(co.root, 'archive', '--format=tar', 'HEAD')
    out = os.path.join(wd, 'unpacked', uuid.uuid4().hex)
    os.makedirs(out)
    with tarfile.open(fileobj=io.BytesIO(data)) as tar:
        tar.extractall(out, filter='data')
    got = reported(out, out, None)
    tags = co.tags[co.head]
    for who, r in got.items():
        if tags:
            require(r['version'] in tags, 'archive of the revision tagged %s: %s reports %r', tags, who, r['version'])
            rec('archive of a tagged revision')
        require(r['full-revisionid'] == co.hash[co.head], 'archive: %s reports revision %s, it is %s', who,
                r['full-revisionid'], co.hash[co.head])


def built(co, wd, versions):
    """The version file written into distributions."""
    out = os.path.join(wd, 'built', uuid.uuid4().hex)
    os.makedirs(out)
    path = os.path.join(out, '_version.py')
    shutil.copy(os.path.join(co.root, 'occuprob', '_version.py'), path)
    with clirun.fence(wd), quiet(), sut('writing the version file'):
        load(os.path.join(co.root, 'versioneer.py')).write_to_version_file(path, versions)
        got = load(path).get_versions()
    if got != versions:
        raise Violation(f'version file of a distribution: {got}, expected {versions}')


@st.composite
def cases(draw):
    num = st.integers(0, 60)
    name = st.sampled_from(['commit', 'commit', 'commit', 'tag', 'tag', 'modify', 'modify', 'delete', 'restore', 'restore',
                            'untracked', 'goto', 'branch', 'archive', 'empty-commit', 'pack'])
    ops = draw(st.lists(st.tuples(name, num, num).map(list), min_size=1, max_size=10))
    if draw(st.integers(0, 3)) == 0:
        ops.insert(draw(st.integers(0, len(ops))), ['tag', draw(num), draw(num)])
        ops.append(['archive', 0, 1])
    return {'ops': ops, 'start': draw(st.sampled_from(['main', 'master', 'v2'])), 'git_dir': draw(st.booleans()), 'store': draw(st.integers(0, 3)) == 0,
            'dir': draw(st.sampled_from(['occuprob', 'a b', 'OccuProb-1.0', 'None', 'x.git']))}


def check_shown(case, rec):
    """--version and __version__ are the reported version."""
    import occuprob
    from occuprob import _version
    with clirun.workdir() as wd:
        res = clirun.run(case['args'], wd).ok('--version')
        want = _version.get_versions()['version']
        # a tag that is no version (in the repository this runs in) has no valid version
        require(PEP440.match(want) or not want[:1].isdigit(), 'version %r', want)
        require(res.out.split()[-1:] == [want], '--version prints %r, the version is %s', res.out, want)
        require(occuprob.__version__ == want, '__version__ is %r, the version is %s', occuprob.__version__, want)
        require(os.listdir(wd) == [], 'files written: %s', os.listdir(wd))
    rec('shown', nontrivial=True)


@st.composite
def shown(draw):
    args = draw(st.lists(st.sampled_from(['in.xyz', '-s', '-q', '--plot', '-R', '--max_temp=20']), max_size=3, unique=True))
    return {'args': draw(st.permutations(args + ['--version']))}


TESTS = [
    Test('histories', cases, check, 240, 4000, rule='two or more kinds of state (tagged or not, modified or not) visited'),
    Test('shown', shown, check_shown, 40, 200, rule='every case'),
]
