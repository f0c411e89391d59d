"""C36: runs that overlap in time do not disturb each other (schedules)."""
import os

from hypothesis import strategies as st

from .. import clirun, cligen, molgen, sched
from ..core import Test, require
from .c33 import COMPLETE


def outputs(run):
    ext = ['dat'] + ([run['format']] if run['plot'] else [])
    return {f"{run['prefix']}_{k}.{x}" for k in 'PC' for x in ext}


def argv(run):
    args = list(run['tokens']) + [run['file'], '--max_temp', str(run['top'])]
    if run['out']:
        args += ['--out_file', run['prefix']]
    if run['plot']:
        args += ['--plot', '--plot_format', run['format']]
    return args


def program(run, wd):
    """Exit status of a whole run, in this process."""
    return clirun.run(argv(run), wd, wd).code


def overlapped(first, second, k, write, wd):
    """first, with second as a process of its own from the k-th line event of first on, to its end.
    Both exit statuses, as one number."""
    seen = [0]

    def other():
        # a process of its own, outside the fence of this one
        import matplotlib.pyplot as plt
        clirun.suspend(True)
        try:
            def fresh():
                plt.close('all')
                return program(second, wd)
            seen[0] = 0 if sched.forked(fresh) == 0 else 2
        finally:
            clirun.suspend(False)
    code = sched.at_line(lambda: program(first, wd), k, other, write)
    return (1 if code else 0) + seen[0]


def check(case, rec):
    runs = case['runs']
    with clirun.workdir() as root:
        root = os.path.realpath(root)
        clirun.prepare()
        dirs = [os.path.join(root, d) for d in ('one', 'two', 'both')]
        files = {'in.xyz': case['frames'][0], case['second']: case['frames'][1]}
        for d in dirs:
            os.makedirs(d)
            for name, frames in files.items():
                cligen.write(d, frames, name)
            with open(os.path.join(d, 'notes.txt'), 'w') as fh:
                fh.write('notes')
        want = {}
        for run, d in zip(runs, dirs):
            clirun.run(argv(run), d, root).ok(f'{argv(run)} alone')
            for n in outputs(run):
                with open(os.path.join(d, n), 'rb') as fh:
                    want[n] = fh.read()
        wd = dirs[2]
        write, lines = sched.zone_of(lambda: program(runs[0], dirs[0]), case['zone'])
        k = case['share'] * lines // 1000
        before = clirun.snapshot(wd)
        code = sched.forked(lambda: overlapped(runs[0], runs[1], k, write, wd))
        after = clirun.snapshot(wd)
        what = f'{argv(runs[0])} with {argv(runs[1])} run meanwhile (line event {k} of {lines}, {case["zone"]})'
        require(code in (0, 1, 2, 3), '%s: ended with status %s', what, code)
        require(not code & 1, '%s: the first run failed', what)
        require(not code & 2, '%s: the second run failed', what)
        changed = {f for f in set(before) | set(after) if before.get(f, 0) != after.get(f, 0)}
        require(changed == set(want), '%s: files created, changed or removed: %s, expected %s', what, sorted(changed), sorted(want))
        for n, data in want.items():
            if n.endswith('.dat'):
                require(after[n] == data, '%s: %s differs from the one of the same run alone', what, n)
            else:
                require(COMPLETE[n.rsplit('.', 1)[1]](after[n]), '%s: %s is not a complete image', what, n)
    rec(case['zone'], 'same input' if runs[0]['file'] == runs[1]['file'] else 'two inputs', 'same outputs' if case['same'] else 'own outputs',
        'plots' if any(r['plot'] for r in runs) else 'tables', nontrivial=lines > 1)


NAMES = ['other.xyz', 'in2.xyz', 'in.v2.xyz', 'in_P.xyz', 'in_C.dat.xyz', 'IN.xyz']


@st.composite
def base(draw, plots):
    frames = [draw(molgen.isomer_file(nmax=3, modes=st.integers(1, 3), extras=False, molecules=molgen.molecule(False)))['frames']
              for _ in range(2)]
    second = draw(st.sampled_from(NAMES))
    runs, same = [], draw(st.integers(0, 5)) == 0
    for k in range(2):
        kinds, tokens = draw(cligen.flags(need=''))
        file = draw(st.sampled_from(['in.xyz', second]))
        out = draw(st.booleans())
        run = {'file': file, 'out': out, 'tokens': tokens, 'top': draw(st.sampled_from([0, 1, 5, 20, 60])),
               'prefix': draw(st.sampled_from(['out', 'res', 'in.b'])) if out else file[:-4],
               'plot': plots and draw(st.integers(0, 3)) > 0, 'format': draw(st.sampled_from(['svg', 'png', 'pdf'])) if plots else 'png'}
        runs.append(run)
    if same:
        runs[1] = dict(runs[0])
    elif runs[0]['prefix'] == runs[1]['prefix']:
        runs[1].update(out=True, prefix='elsewhere')
    return {'frames': frames, 'second': second, 'runs': runs, 'same': same, 'zone': draw(st.sampled_from(['code', 'code', 'write'])),
            'share': draw(st.integers(0, 999))}


RULE = 'the first run was part-way when the second one ran'
TESTS = [Test('tables', lambda: base(False), check, 800, 16000, rule=RULE),
         Test('images', lambda: base(True), check, 120, 2000, rule=RULE)]
