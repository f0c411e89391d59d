"""The command line, run in process inside a scratch directory, with its side effects fenced."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np

from .core import Violation, require

_fence = {'on': False, 'roots': (), 'hits': [], 'installed': False}
WRITE_EVENTS = {'os.remove': (0,), 'os.rename': (0, 1), 'os.rmdir': (0,), 'os.mkdir': (0,), 'os.link': (1,),
                'os.symlink': (1,), 'os.truncate': (0,), 'os.chmod': (0,), 'os.chown': (0,), 'os.utime': (0,),
                'shutil.rmtree': (0,), 'shutil.move': (0, 1), 'os.setxattr': (0,)}
FORBIDDEN = {'os.system', 'os.exec', 'os.spawn', 'os.kill', 'os.killpg',
             'socket.connect', 'socket.bind', 'os.fork', 'os.forkpty'}


GIT = {'git', 'git.cmd', 'git.exe'}


class Fenced(PermissionError):
    pass


def _inside(path):
    if isinstance(path, int):
        return True
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    try:
        real = os.path.realpath(os.fspath(path))
    except TypeError:
        return True
    return real in ('/dev/null', '/dev/full') or any(real == r or real.startswith(r + os.sep) for r in _fence['roots'])


def _hook(event, args):
    if not _fence['on']:
        return
    if event == 'open':
        path, mode, flags = args
        writing = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or \
                  (mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if writing and not _inside(path):
            _fence['hits'].append(f'open {path!r} for writing')
            raise Fenced(f'outside the scratch directory: {path!r}')
    elif event in WRITE_EVENTS:
        for i in WRITE_EVENTS[event]:
            if i < len(args) and not _inside(args[i]):
                _fence['hits'].append(f'{event} {args[i]!r}')
                raise Fenced(f'outside the scratch directory: {event} {args[i]!r}')
    elif event == 'subprocess.Popen' or event == 'os.posix_spawn':
        # the version lookup asks git; nothing else has a reason to start a program
        exe = args[0] or (args[1][0] if args[1] else '')
        if os.path.basename(os.fsdecode(os.fspath(exe))) not in GIT:
            _fence['hits'].append(f'{event} {exe!r}')
            raise Fenced(f'{event} {exe!r}')
    elif event in FORBIDDEN:
        _fence['hits'].append(event)
        raise Fenced(event)


def prepare(figures=True):
    """Warm up matplotlib (fonts, backends) if figures are to be drawn, then install the audit hook."""
    if _fence['installed']:
        return
    if figures:
        warm_up()
    _fence['installed'] = True
    sys.addaudithook(_hook)


def warm_up():
    import matplotlib.pyplot as plt
    fig = plt.figure()
    plt.plot([0, 1], [0, 1], label='$P_a(T)$')
    plt.xlabel(r'$T$ [K]')
    plt.legend()
    with tempfile.TemporaryDirectory() as d:
        for fmt in ('svg', 'png', 'pdf'):
            fig.savefig(os.path.join(d, 'x.' + fmt))
    plt.close('all')


@contextlib.contextmanager
def fence(*roots, figures=True):
    prepare(figures)
    _fence['roots'] = tuple(os.path.realpath(r) for r in roots) + (os.path.realpath(os.environ['MPLCONFIGDIR']),)
    _fence['hits'] = []
    _fence['on'] = True
    try:
        yield
    finally:
        _fence['on'] = False


def suspend(off):
    """Let the harness itself do what is forbidden inside the fence."""
    _fence['on'] = not off


class Result:
    def __init__(self):
        self.code = 0           # exit status as a shell would see it
        self.error = None       # exception that ended the run, other than SystemExit
        self.out = self.err = ''
        self.hits = []

    def ok(self, what='command line'):
        if self.error is not None:
            raise Violation(f'{what}: failed with {type(self.error).__name__}: {self.error}') from self.error
        require(self.code == 0, '%s: exit status %s (%s)', what, self.code, self.err[-300:])
        return self


def run(argv, cwd, root=None):
    """occuprob ARGV in directory cwd."""
    import matplotlib.pyplot as plt
    from occuprob import cli
    res = Result()
    out, err = io.StringIO(), io.StringIO()
    old = os.getcwd(), sys.argv
    os.chdir(cwd)
    sys.argv = ['occuprob'] + [str(a) for a in argv]
    try:
        with fence(root or cwd), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), \
                warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                cli.main()
            except SystemExit as exc:
                res.code = 0 if exc.code is None else exc.code if isinstance(exc.code, int) else 1
            except Exception as exc:  # noqa: BLE001
                res.error, res.code = exc, 1
    finally:
        os.chdir(old[0])
        sys.argv = old[1]
        plt.close('all')
    res.out, res.err = out.getvalue(), err.getvalue()
    res.hits = list(_fence['hits'])
    return res


@contextlib.contextmanager
def workdir():
    d = tempfile.mkdtemp(prefix='case_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def snapshot(root):
    """Relative path -> content, for every file below root; directories map to None."""
    out = {}
    for base, dirs, files in os.walk(root):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), root) + '/'] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def read_table(path, what):
    """A whitespace-separated table of numbers, without help from numpy's reader."""
    require(os.path.exists(path), '%s: %s was not written', what, os.path.basename(path))
    rows = []
    with open(path) as fh:
        for line in fh:
            line = line.split('#')[0].strip()
            if line:
                rows.append(line.split())
    require(rows, '%s: empty table', what)
    require(len({len(r) for r in rows}) == 1, '%s: rows of different lengths', what)
    try:
        return np.array([[float(x) for x in r] for r in rows]), rows
    except ValueError as exc:
        raise Violation(f'{what}: not a number: {exc}') from exc
