"""C44: the options of a run act independently of each other and of how they are given."""
import os

from hypothesis import strategies as st

from .. import clirun, cligen, molgen
from ..common import close
from ..core import Test, require
from .c33 import COMPLETE


def tables(run, wd):
    clirun.run(run['args'], wd).ok(f'{run["args"]}')
    p, c = cligen.tables(os.path.join(wd, run['prefix']))
    for k in 'PC':
        if run['format']:
            image = f'{run["prefix"]}_{k}.{run["format"]}'
            path = os.path.join(wd, image)
            require(os.path.exists(path), '%s: no %s', run['args'], image)
            with open(path, 'rb') as fh:
                require(COMPLETE[run['format']](fh.read()), '%s: %s is not a complete image', run['args'], image)
    return p, c


def check(case, rec):
    base = case['runs'][0]
    with clirun.workdir() as root:
        res = []
        for k, run in enumerate(case['runs']):
            wd = os.path.join(root, str(k))
            cligen.write(wd, case['frames'])
            res.append(tables(run, wd))
    lo, hi = base['range']
    for name, j in (('probabilities', 0), ('heat capacities', 1)):
        want = res[0][j]
        require(len(want) == hi - lo + 1, '%s: %s rows, expected %s', base['args'], len(want), hi - lo + 1)
        for run, got in zip(case['runs'][1:], res[1:]):
            first, last = run['range']
            t = got[j]
            require(t.shape == (last - first + 1, want.shape[1]), '%s: table of the %s has shape %s, expected %s', run['args'], name, t.shape,
                    (last - first + 1, want.shape[1]))
            a, b = max(first, lo), min(last, hi)
            if a <= b:
                close(t[a - first:b - first + 1], want[a - lo:b - lo + 1], 1e-10, 1e-13 if j == 0 else 1e-11,
                      f'{name} of {run["args"]} against those of {base["args"]}, from {a} to {b} K')
    rec('kinds:' + case['kinds'], *{r['format'] or 'tables only' for r in case['runs']},
        'other range' if any(r['range'] != base['range'] for r in case['runs']) else 'same range', f'runs:{len(case["runs"])}',
        nontrivial=hi > lo)


@st.composite
def number(draw, k, f=''):
    """A spelling of a number, whole or with the decimals f."""
    if f:
        return draw(st.sampled_from([f'{k}.{f}', f'{k}.{f}00', f'0{k}.{f}', f'+{k}.{f}', f'{k}{f}e-{len(f)}']))
    style = draw(st.sampled_from(['plain', 'plain', 'point', 'zeros', 'exponent', 'plus', 'leading']))
    if style == 'point':
        return f'{k}.'
    if style == 'zeros':
        return f'{k}.000'
    if style == 'exponent':
        return draw(st.sampled_from([f'{k}e0', f'{k // 100}.{k % 100:02d}E2', f'{k}0e-1']))
    if style == 'plus':
        return f'+{k}'
    if style == 'leading':
        return f'00{k}'
    return str(k)


@st.composite
def one(draw, kinds, lo, hi, plots, f):
    """A command line of the given contributions and temperature range."""
    tokens = draw(cligen.spell(kinds))
    if draw(st.integers(0, 3)) == 0:       # a flag given twice
        tokens = tokens + ['-' + draw(st.sampled_from(list(kinds)))]
    options = []
    if hi != 500 or f or draw(st.booleans()):
        if draw(st.integers(0, 5)) == 0:   # the last value counts
            tail = cligen.option(draw, '--max_temp', draw(st.integers(0, 900))) + cligen.option(draw, '--max_temp', draw(number(hi, f)))
            options.append(tail)
        else:
            options.append(cligen.option(draw, '--max_temp', draw(number(hi, f))))
    if lo or f or draw(st.booleans()):
        options.append(cligen.option(draw, '--min_temp', draw(number(lo, f))))
    run = {'prefix': 'in', 'format': '', 'range': [lo, hi]}
    if draw(st.booleans()):
        run['prefix'] = draw(st.sampled_from(['out', 'res', 'a.b', 'in2', 'P', 'in_P', 'x_C']))
        options.append(cligen.option(draw, '--out_file', run['prefix']))
    if plots and draw(st.integers(0, 3)):
        run['format'] = draw(st.sampled_from(['svg', 'png', 'pdf']))
        options.append(['--plot'])
        spelled = draw(st.sampled_from([run['format'], run['format'].upper()]))
        if run['format'] != 'svg' or draw(st.booleans()):
            options.append(cligen.option(draw, '--plot_format', spelled))
    elif draw(st.booleans()):              # without effect
        options.append(cligen.option(draw, '--plot_format', draw(st.sampled_from(['svg', 'png', 'pdf']))))
    if draw(st.booleans()):
        options.append(['--size', str(draw(st.integers(3, 12))), str(draw(st.sampled_from([3, 4.5, 6.25])))])
    run['args'] = cligen.assemble(draw, 'in.xyz', tokens, options)
    if draw(st.integers(0, 5)) == 0:       # the file last, after the end of the options
        run['args'] = [a for a in run['args'] if a != 'in.xyz'] + ['--', 'in.xyz']
    return run


@st.composite
def base(draw, plots):
    kinds, _ = draw(cligen.flags())
    case = draw(molgen.isomer_file(nmin=draw(st.sampled_from([1, 2, 2, 3])), nmax=4, molecules=cligen.rotor_molecules(kinds),
                                   modes=st.integers(1, 4), extras=False, close=draw(st.sampled_from([True, True, False]))))
    lo = draw(st.sampled_from([0, 0, 1, 10, 150, 295]))
    hi = draw(st.sampled_from([500, lo, lo + 1, lo + 5, lo + 20, lo + 120, lo + 300]))
    ranges = [(lo, hi)]
    for _ in range(draw(st.integers(1, 2 if plots else 3))):
        if draw(st.booleans()):
            ranges.append((lo, hi))
        else:
            a = max(0, lo + draw(st.integers(-60, 60)))
            ranges.append((a, max(a, hi + draw(st.integers(-60, 60)))))
    f = draw(st.sampled_from(['', '', '', '5', '25', '7']))
    case['runs'] = [draw(one(kinds, a, b, plots, f)) for a, b in ranges]
    case['kinds'] = kinds
    return case


RULE = 'several temperatures'
TESTS = [Test('tables', lambda: base(False), check, 700, 14000, rule=RULE),
         Test('images', lambda: base(True), check, 120, 2400, rule=RULE)]
