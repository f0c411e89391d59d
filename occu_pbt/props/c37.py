"""C37: interrupted runs do no harm and can be repeated (crash points)."""
import os

from hypothesis import strategies as st

from .. import clirun, cligen, molgen, sched
from ..core import Test, require
from .c33 import COMPLETE
from .c36 import argv, outputs, program


def die():
    os._exit(9)


def interrupt():
    raise KeyboardInterrupt


def memory():
    raise MemoryError


HOW = {'killed': die, 'interrupted': interrupt, 'out of memory': memory}


def interrupted(run, wd, how, k, write):
    """The run in a process of its own, disturbed at the k-th line event; exit status."""
    def inside():
        try:
            return sched.at_line(lambda: program(run, wd), k, HOW[how], write)
        except KeyboardInterrupt:
            return 130
    return sched.forked(inside)


def check(case, rec):
    runs = case['runs']
    with clirun.workdir() as root:
        root = os.path.realpath(root)
        clirun.prepare()
        wd, ref = os.path.join(root, 'work'), [os.path.join(root, f'ref{k}') for k in range(len(runs))]
        for d in [wd] + ref:
            os.makedirs(d)
            cligen.write(d, case['frames'])
            for name in ('notes.txt', 'in.dat', 'in_P.txt', 'out.tmp', 'in_P.dat.bak'):
                with open(os.path.join(d, name), 'w') as fh:
                    fh.write('not a result\n')
        want, lines = [], {}
        for k, (run, d) in enumerate(zip(runs, ref)):
            clirun.run(argv(run), d, root).ok(f'{argv(run)}')
            want.append({n: open(os.path.join(d, n), 'rb').read() for n in outputs(run)})
        begin = clirun.snapshot(wd)
        every = set().union(*want)
        if case['old']:
            for n in sorted(every):
                with open(os.path.join(wd, n), 'w') as fh:
                    fh.write('older results\n' * 3000)
        stopped = 0
        for i, how, zone, share in case['faults']:
            i %= len(runs)
            if (i, zone) not in lines:
                lines[i, zone] = sched.zone_of(lambda: program(runs[i], ref[i]), zone)
            write, count = lines[i, zone]
            k = share * count // 1000
            code = interrupted(runs[i], wd, how, k, write)
            what = f'{argv(runs[i])} {how} at line event {k} of {count} ({zone})'
            now = clirun.snapshot(wd)
            require(all(now.get(f, 0) == c for f, c in begin.items()), '%s: changed %s', what,
                    sorted(f for f, c in begin.items() if now.get(f, 0) != c))
            stopped += code != 0
            if code == 0:
                complete(now, want[i], f'{what}, exit status 0')
        # again, undisturbed
        last = case['last'] % len(runs)
        left = clirun.snapshot(wd)
        what = f'{argv(runs[last])} after ' + ', '.join(f'{argv(runs[i % len(runs)])} {how}' for i, how, _, _ in case['faults'])
        res = clirun.run(argv(runs[last]), wd, root)
        require(not res.hits, '%s: touched %s', what, res.hits[:3])
        res.ok(what)
        now = clirun.snapshot(wd)
        complete(now, want[last], what)
        require(all(now.get(f, 0) == c for f, c in begin.items()), '%s: changed %s', what,
                sorted(f for f, c in begin.items() if now.get(f, 0) != c))
        more = set(now) - set(left) - set(want[last])
        require(not more, '%s: other files appeared: %s', what, sorted(more))
    rec(*{f[1] for f in case['faults']}, *{f[2] for f in case['faults']}, f'interruptions:{len(case["faults"])}',
        'plots' if any(r['plot'] for r in runs) else 'tables', 'older results' if case['old'] else 'fresh', nontrivial=stopped > 0)


def complete(now, want, what):
    for n, data in want.items():
        require(n in now, '%s: %s is not there', what, n)
        if n.endswith('.dat'):
            require(now[n] == data, '%s: %s is not that of an undisturbed run', what, n)
        else:
            require(COMPLETE[n.rsplit('.', 1)[1]](now[n]), '%s: %s is not a complete image', what, n)


@st.composite
def base(draw, plots):
    case = draw(molgen.isomer_file(nmax=3, modes=st.integers(1, 3), extras=False, molecules=molgen.molecule(False)))
    runs = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        _, tokens = draw(cligen.flags(need=''))
        out = draw(st.booleans())
        runs.append({'file': 'in.xyz', 'out': out, 'tokens': tokens, 'top': draw(st.sampled_from([0, 1, 5, 20, 60])),
                     'prefix': draw(st.sampled_from(['out', 'res.v1'])) if out else 'in', 'plot': plots,
                     'format': draw(st.sampled_from(['svg', 'png', 'pdf'])) if plots else 'png'})
    zones = ['code', 'code', 'code', 'write']
    case.update(runs=runs, old=draw(st.booleans()), last=draw(st.integers(0, 1)),
                faults=[list(f) for f in draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(['killed', 'killed', 'interrupted', 'out of memory']),
                                                                 st.sampled_from(zones), st.integers(0, 999)), min_size=1, max_size=3))])
    return case


RULE = 'a run was stopped part-way'
TESTS = [Test('tables', lambda: base(False), check, 800, 16000, rule=RULE),
         Test('images', lambda: base(True), check, 100, 2000, rule=RULE)]
