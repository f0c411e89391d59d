"""C40: using the library leaves the surrounding program as it was, and does not depend on its settings."""
import contextlib
import decimal
import gc
import importlib
import locale
import logging
import os
import random
import resource
import signal
import sys
import threading
import time
import warnings
from io import StringIO

import numpy as np
from hypothesis import strategies as st

from .. import cligen, clirun, molgen
from ..common import quiet
from ..core import Test, Violation, require, sut
from . import c21, c35

SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGHUP, signal.SIGUSR1]
# compared as the backend in use
LIMITS = [resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CORE, resource.RLIMIT_FSIZE, resource.RLIMIT_CPU]
NOT_SETTINGS = {'backend', 'backend_fallback'}


def open_files():
    out = []
    for fd in os.listdir('/proc/self/fd'):
        with contextlib.suppress(OSError):
            out.append(os.readlink('/proc/self/fd/' + fd))
    return sorted(x for x in out if x.startswith('/') and not x.startswith('/proc/') and not x.startswith('/dev/'))


def children():
    me = os.getpid()
    with contextlib.suppress(OSError):
        with open(f'/proc/{me}/task/{me}/children') as fh:
            return sorted(fh.read().split())
    return []


def settings():
    """Process-wide settings a library has no business changing."""
    import matplotlib
    return {
        "numpy's error handling": np.geterr(), "numpy's error callback": np.geterrcall(),
        "numpy's print options": {k: v for k, v in np.get_printoptions().items()},
        "numpy's random state": str([x.tolist() if hasattr(x, 'tolist') else x for x in np.random.get_state()]),
        'random state': hash(random.getstate()),
        'warnings filters': [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters],
        "matplotlib's settings": {k: repr(v) for k, v in matplotlib.rcParams.copy().items() if k not in NOT_SETTINGS},
        'working directory': os.getcwd(), 'environment': dict(os.environ), 'locale': locale.setlocale(locale.LC_ALL),
        'signal handlers': [signal.getsignal(s) for s in SIGNALS], 'standard streams': [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        'recursion limit': sys.getrecursionlimit(), 'module search path': list(sys.path), 'umask': umask(),
        'exception hook': id(sys.excepthook), 'arguments': list(sys.argv),
        'backend of matplotlib': matplotlib.get_backend().lower(),
        'logging': ([id(h) for h in logging.root.handlers], logging.root.level, logging.root.manager.disable),
        'garbage collection': (gc.isenabled(), gc.get_threshold()), 'decimal context': repr(decimal.getcontext()),
        'priority': os.getpriority(os.PRIO_PROCESS, 0), 'resource limits': [resource.getrlimit(k) for k in LIMITS],
        'tracing': (id(sys.gettrace()), id(sys.getprofile())), 'switch interval': sys.getswitchinterval(),
        'display hook': id(sys.displayhook), 'time zone': time.tzname, 'buffer size of numpy': np.getbufsize(),
        'threads': sorted(t.name for t in threading.enumerate()), 'open files': open_files(), 'child processes': children(),
    }


def umask():
    old = os.umask(0o022)
    os.umask(old)
    return old


def own_figures():
    """Figures the surrounding program has open."""
    import matplotlib.pyplot as plt
    out = []
    for k in range(2):
        fig = plt.figure(f'mine {k}', figsize=(3 + k, 2))
        ax = fig.add_subplot(111)
        ax.plot([0, 1, 4], [k, 2, 3], label='own', lw=1.5)
        ax.set_xlim(-1, 5)
        ax.set_title('title')
        out.append(fig)
    return out


def look(figs):
    out = []
    for fig in figs:
        d = c21.describe(fig)
        for ax in d['axes']:
            ax['lines'] = [(x.tolist(), y.tolist(), *rest) for x, y, *rest in ax['lines']]
        import matplotlib.pyplot as plt
        d.update(title=[ax.get_title() for ax in fig.axes], xlabel=[ax.get_xlabel() for ax in fig.axes],
                 collections=[len(ax.collections) for ax in fig.axes], there=plt.fignum_exists(fig.number))
        out.append(d)
    return out


@contextlib.contextmanager
def unchanged(what, figures=False):
    import matplotlib.pyplot as plt
    figs = own_figures() if figures else []
    try:
        before, drawn = settings(), look(figs)
        yield
        after = settings()
        for key, old in before.items():
            new = after[key]
            if key == 'open files' and new != old:
                gc.collect()
                new = open_files()
            if new != old:
                detail = {k: (old.get(k), new.get(k)) for k in set(old) | set(new) if old.get(k) != new.get(k)} \
                    if isinstance(old, dict) else (old, new)
                raise Violation(f'{what} changed the {key} of the program: {str(detail)[:400]}')
        require(look(figs) == drawn, '%s changed the figures the program had open', what)
    finally:
        plt.close('all')


@contextlib.contextmanager
def preserved():
    """What outlives a single run is put back, so that every run meets the same program."""
    import matplotlib
    rc, err, printing = matplotlib.rcParams.copy(), np.geterr(), np.get_printoptions()
    signals = {s: signal.getsignal(s) for s in SIGNALS}
    environ, mask, place = dict(os.environ), umask(), locale.setlocale(locale.LC_ALL)
    hooks = sys.excepthook, sys.getrecursionlimit(), list(sys.path)
    logs = list(logging.root.handlers), logging.root.level, logging.root.manager.disable
    collect = gc.isenabled(), gc.get_threshold()
    try:
        yield
    finally:
        for s, handler in signals.items():
            if signal.getsignal(s) is not handler:
                signal.signal(s, handler)
        if dict(os.environ) != environ:
            os.environ.clear()
            os.environ.update(environ)
        os.umask(mask)
        locale.setlocale(locale.LC_ALL, place)
        sys.excepthook, sys.path[:] = hooks[0], hooks[2]
        sys.setrecursionlimit(hooks[1])
        logging.root.handlers[:] = logs[0]
        logging.root.setLevel(logs[1])
        logging.disable(logs[2])
        (gc.enable if collect[0] else gc.disable)()
        gc.set_threshold(*collect[1])
        np.seterr(**err)
        np.set_printoptions(**printing)
        changed = {k: v for k, v in rc.items() if k not in NOT_SETTINGS and matplotlib.rcParams[k] != v}
        if changed:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                matplotlib.rcParams.update(changed)


def other_handler(number, frame):
    """Stands for a handler of the program."""


@contextlib.contextmanager
def surroundings(s):
    with preserved():
        for number in s['signals']:
            signal.signal(getattr(signal, number), other_handler)
        os.environ.update(s['env'])
        os.umask(s['umask'])
        with style(s):
            yield


@contextlib.contextmanager
def style(s):
    """Settings the program has chosen."""
    import matplotlib
    import matplotlib.pyplot as plt
    old_rc, backend = matplotlib.rcParams.copy(), matplotlib.get_backend()
    old_err, old_print = np.geterr(), np.get_printoptions()
    states = np.random.get_state(), random.getstate()
    old_switch, old_int = sys.getswitchinterval(), sys.get_int_max_str_digits()
    try:
        np.seterr(**s['err'])
        np.set_printoptions(**{k: v for k, v in s['print'].items()})
        np.random.seed(s['seed'])
        random.seed(s['seed'])
        matplotlib.rcParams.update(s['rc'])
        if s.get('backend'):
            plt.switch_backend(s['backend'])
        with warnings.catch_warnings():
            warnings.simplefilter(s['warn'])
            yield
    finally:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            matplotlib.rcParams.update(old_rc)
            if matplotlib.get_backend() != backend:
                plt.switch_backend(backend)
        np.seterr(**old_err)
        np.set_printoptions(**old_print)
        np.random.set_state(states[0])
        random.setstate(states[1])
        sys.setswitchinterval(old_switch)
        sys.set_int_max_str_digits(old_int)


@st.composite
def settings_of_program(draw, plots=False):
    how = st.sampled_from(['ignore', 'warn', 'ignore'])
    s = {'err': {k: draw(how) for k in ('divide', 'over', 'under', 'invalid')},
         'print': draw(st.sampled_from([{}, {'precision': 2}, {'threshold': 3, 'edgeitems': 1}, {'suppress': True, 'precision': 1},
                                        {'linewidth': 10}, {'floatmode': 'fixed', 'precision': 3}, {'sign': '+'}])),
         'signals': draw(st.lists(st.sampled_from(['SIGPIPE', 'SIGHUP', 'SIGUSR1']), max_size=2, unique=True)),
         'env': draw(st.sampled_from([{}, {}, {'COLUMNS': '40'}, {'LANG': 'C'}, {'MINE': '1'}, {'PYTHONWARNINGS': 'error'}])),
         'umask': draw(st.sampled_from([0o22, 0o77, 0o27])), 'seed': draw(st.integers(0, 99)), 'warn': draw(st.sampled_from(['ignore', 'default', 'always', 'once'])), 'rc': {}}
    if plots:
        s['backend'] = draw(st.sampled_from([None, None, 'svg', 'pdf', 'ps']))
        rc = [('font.size', [6.0, 14.0]), ('lines.linewidth', [0.5, 4.0]), ('figure.figsize', [[3.0, 3.0], [12.0, 4.0]]),
              ('axes.xmargin', [0.0, 0.2]), ('axes.grid', [True]), ('figure.dpi', [50.0, 72.0]), ('legend.fontsize', ['small']),
              ('figure.facecolor', ['black', '#dddddd']), ('axes.titlesize', ['small']), ('interactive', [False, True]),
              ('axes.autolimit_mode', ['round_numbers', 'data']), ('lines.marker', ['o', 'None']), ('savefig.dpi', [60, 'figure'])]
        for name, values in rc:
            if draw(st.integers(0, 3)) == 0:
                s['rc'][name] = draw(st.sampled_from(values))
    return s


def calculations(case, rec):
    tasks = case['tasks']
    want = []
    for t in tasks:
        with sut(t['what']), quiet(), preserved(), np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            want.append(np.array(c35.call(c35.make(case), t)()))
    with surroundings(case['settings']):
        with quiet(), unchanged('constructing contributions and superpositions'), sut('construction'):
            world = c35.make(case)
        for t, ref in zip(tasks, want):
            call = c35.call(world, t)
            with quiet(), clirun.fence('/nonexistent', figures=False), unchanged(t['what']), sut(t['what']):
                value = call()
            c35.same(value, ref, f'{t["what"]} under {case["settings"]}')
    rec(*{t['what'] for t in tasks}, 'errors:' + ','.join(sorted(set(case['settings']['err'].values()))), nontrivial=True)


@st.composite
def calculation_cases(draw):
    case = draw(c35.cases())
    del case['slices']
    # grids that look like others when printed under some settings, but differ from them
    count = len(case['grids'])
    change = draw(st.sampled_from([1e-3, 0.02, 1.0, 7.0]))
    for g in list(case['grids']):
        case['grids'].append([t + change * (0 < k < len(g) - 1 or len(g) < 3) for k, t in enumerate(g)])
    case['tasks'] += [dict(t, grid=t['grid'] % count + count) for t in case['tasks'][:draw(st.integers(0, 2))]]
    case['settings'] = draw(settings_of_program())
    return case


def enter(args):
    """The entry point, called by a program that goes on afterwards."""
    from occuprob import cli
    sys.argv = ['occuprob'] + [str(x) for x in args]
    out, err = StringIO(), StringIO()
    code = 0
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            cli.main()
        except SystemExit as exc:
            code = exc.code
        except Exception as exc:  # noqa: BLE001
            code = exc
        require(sys.stdout is out and sys.stderr is err, 'the run %s replaced the standard streams', args)
    return code


def check_run(case, rec):
    """The command line inside another program."""
    name, mode = case['name'], case['mode']
    with clirun.workdir() as wd:
        a, b = os.path.join(wd, 'a'), os.path.join(wd, 'b')
        for d in (a, b):
            os.mkdir(d)
            cligen.write(d, case['frames'], name)
        args = [x for x in case['args'] if case['plot'] or x != '--plot']
        if mode == 'normal':
            with preserved():
                clirun.run(args, a).ok(f'{args}')
        else:
            args = {'version': ['--version'], 'help': ['-h'], 'missing': [x.replace('in.xyz', 'other.xyz') for x in args],
                    'unknown': args + ['--nothing']}[mode]
        with surroundings(case['settings']):
            old = os.getcwd(), sys.argv
            os.chdir(b)
            argv = sys.argv = ['occuprob'] + [str(x) for x in args]
            try:
                with clirun.fence(b), unchanged(f'the run {args}', figures=True):
                    code = enter(args)
                if mode == 'normal' and code not in (0, None):
                    raise Violation(f'the run {args} failed under the settings {case["settings"]}: {code!r}')
                require(sys.argv == argv, 'the run %s changed the arguments of the program', args)
            finally:
                sys.argv = old[1]
                os.chdir(old[0])
        if mode == 'normal':
            for key in 'PC':
                table = name[:-4] + f'_{key}.dat'
                with open(os.path.join(a, table), 'rb') as fh, open(os.path.join(b, table), 'rb') as gh:
                    require(fh.read() == gh.read(), 'other %s table under the settings %s', key, case['settings'])
    rec(mode, 'plots' if case['plot'] else 'tables', f'isomers:{min(len(case["frames"]), 4)}', nontrivial=True)


@st.composite
def run_cases(draw, plots):
    kinds, tokens = draw(cligen.flags())
    case = draw(molgen.isomer_file(nmax=3, molecules=cligen.rotor_molecules(kinds), modes=st.integers(1, 4), extras=False))
    options = [cligen.option(draw, '--max_temp', draw(st.sampled_from([3, 30, 200])))]
    if plots:
        options += [['--plot'], ['--plot_format', draw(st.sampled_from(['svg', 'png', 'pdf']))]]
    name = draw(st.sampled_from(['in.xyz', 'in.xyz', 'sub/in.xyz']))
    mode = draw(st.sampled_from(['normal'] * 8 + ['version', 'help', 'missing', 'unknown'])) if not plots else 'normal'
    case.update(plot=plots, args=cligen.assemble(draw, name, tokens, options), name=name, mode=mode,
                settings=draw(settings_of_program(plots)))
    return case


def check_plot(case, rec):
    """A plot drawn by a program with its own style and figures shows the same data."""
    from occuprob import io as oio
    temp, rows, fmt = np.array(case['T'], dtype=float), np.array(case['rows'], dtype=float), dict(case['fmt'])
    figs = []
    with clirun.workdir() as wd, surroundings(case['settings']):
        path = os.path.join(wd, 'plot.' + case['ext'])
        with quiet(), clirun.fence(wd), unchanged('plotting', figures=True), sut('plot_results'), c21.captured(figs):
            oio.plot_results(rows, temp, path, **fmt)
        require(os.path.exists(path) and len(figs) == 1, 'no image was written')
        c21.verify(figs[0][1], temp, rows, fmt.get('size', (8.0, 6.0)), fmt.get('labels'), path, f'plot under {case["settings"]["rc"]}')
    rec(*case['settings']['rc'], nontrivial=len(case['settings']['rc']) > 0)


@st.composite
def plot_cases(draw):
    case = draw(c21.api_cases().filter(lambda c: len(c['T']) * len(c['rows']) < 2000))
    case['settings'] = draw(settings_of_program(True))
    return case


MODULES = ['occuprob', 'occuprob.utils', 'occuprob.partitionfunctions', 'occuprob.superpositions', 'occuprob.io', 'occuprob.cli']


def check_import(case, rec):
    """Importing the package (its dependencies are there already)."""
    kept = {m: sys.modules.pop(m) for m in list(sys.modules) if m.split('.')[0] == 'occuprob'}
    try:
        with surroundings(case['settings']), quiet(), unchanged(f'importing {case["modules"]}', figures=case['figures']):
            for m in case['modules']:
                with sut(f'import of {m}'):
                    importlib.import_module(m)
    finally:
        for m in [m for m in sys.modules if m.split('.')[0] == 'occuprob']:
            del sys.modules[m]
        sys.modules.update(kept)
    rec('first:' + case['modules'][0], nontrivial=len(case['modules']) > 1)


@st.composite
def import_cases(draw):
    return {'modules': draw(st.lists(st.sampled_from(MODULES), min_size=1, max_size=5, unique=True)),
            'figures': draw(st.integers(0, 9)) == 0, 'settings': draw(settings_of_program(True))}


TESTS = [
    Test('imports', import_cases, check_import, 200, 2000, rule='several modules'),
    Test('calculations', calculation_cases, calculations, 2000, 40000, rule='every case'),
    Test('runs', lambda: run_cases(False), check_run, 400, 8000, rule='every case'),
    Test('runs-with-plots', lambda: run_cases(True), check_run, 80, 1600, rule='every case'),
    Test('plots', plot_cases, check_plot, 240, 5000, rule='some setting of matplotlib differs from its default'),
]
