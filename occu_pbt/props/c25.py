"""C25: malformed input never produces results."""
import os

from hypothesis import strategies as st

from .. import clirun, cligen, molgen, xyz
from ..common import quiet
from ..core import Test, Violation, require

OLD = ['in_P.dat', 'in_C.dat', 'in_P.svg', 'out_P.dat', 'out_C.dat', 'notes.txt']
REQUIRED = ['Energy', 'Multiplicity', 'Frequencies']


def prepare(wd, case):
    """The directory as it is before the run; the broken file is in.xyz."""
    if case['old']:
        for name in OLD:
            with open(os.path.join(wd, name), 'w') as fh:
                fh.write('older results ' + name + '\n')


def refused(wd, case, what):
    from occuprob.io import load_properties_from_extxyz
    before = clirun.snapshot(wd)
    old = os.getcwd()
    os.chdir(wd)
    try:
        with quiet(), clirun.fence(wd):
            try:
                props = load_properties_from_extxyz('in.xyz')
            except Exception:  # noqa: BLE001 - the error the property asks for
                props = None
    finally:
        os.chdir(old)
    if props is not None:
        raise Violation(f'{what}: loaded without an error: { {k: v for k, v in props.items() if k != "moments"} }')
    require(clirun.snapshot(wd) == before, '%s: loading changed files', what)
    res = clirun.run(case['args'], wd)
    after = clirun.snapshot(wd)
    changed = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
    require(not changed and not res.hits, '%s: the command line wrote %s', what, changed or res.hits)
    require(res.error is not None or res.code != 0, '%s: the command line ended normally', what)


def break_frames(case):
    """Text of the malformed file."""
    frames, b = [dict(f, pairs=[list(p) for p in f['pairs']]) for f in case['frames']], case['broken']
    at = b['at'] % len(frames)
    f = frames[at]
    if b['how'] == 'missing':
        f['pairs'] = [p for p in f['pairs'] if p[0] != b['key']] or [['Name', 'x']]
    elif b['how'] == 'misspelled':
        for p in f['pairs']:
            if p[0] == b['key']:
                p[0] = b['spelling'][REQUIRED.index(b['key'])]
    elif b['how'] == 'count':
        old = f['freqs']
        count = b['count'] if b['count'] > 0 else len(old) + b['count'] if b['count'] < 0 else 2 * len(old)
        if count < 1 or count == len(old):
            count = len(old) + 1
        freqs = (old * (count // len(old) + 1))[:count]
        for p in f['pairs']:
            if p[0] == 'Frequencies':
                p[1] = xyz.freq_value(freqs)
    text = xyz.file_text(frames)
    if b['how'] == 'truncated':
        start = len(xyz.file_text(frames[:-1]))
        lines = text[start:].split('\n')[:-1]
        keep = 1 + b['lines'] % (len(lines) - 1)        # the count line and possibly more, but not all
        lines = lines[:keep]
        if b['columns'] and keep > 2:
            # the last line kept ends after one of its columns
            cols = lines[-1].split()
            lines[-1] = ' '.join(cols[:1 + b['columns'] % (len(cols) - 1)])
        text = text[:start] + '\n'.join(lines) + ('\n' if b['newline'] else '')
    elif b['how'] == 'columns':
        start = len(xyz.file_text(frames[:-1]))
        lines = text[start:].rstrip('\n').split('\n')
        cols = lines[-1].split()
        lines[-1] = ' '.join(cols[:1 + b['columns'] % (len(cols) - 1)])
        text = text[:start] + '\n'.join(lines) + ('\n' if b['newline'] else '')
    return text


def check_file(case, rec):
    b = case['broken']
    with clirun.workdir() as wd:
        prepare(wd, case)
        path = os.path.join(wd, 'in.xyz')
        what = b['how']
        if b['how'] == 'absent':
            pass
        elif b['how'] == 'directory':
            os.mkdir(path)
        elif b['how'] == 'empty':
            open(path, 'w').close()
        else:
            what = f'{b["how"]} {b.get("key", "")} in isomer {b["at"] % len(case["frames"]) + 1} of {len(case["frames"])}'
            with open(path, 'w') as fh:
                fh.write(break_frames(case))
        refused(wd, case, what)
    rec(b['how'], f'isomers:{len(case["frames"])}', 'older results' if case['old'] else 'fresh directory', nontrivial=True)


def outputs(draw):
    options = draw(st.lists(st.sampled_from([['--plot'], ['--out_file', 'out'], ['--max_temp', '20']]), max_size=3,
                            unique_by=lambda o: o[0]))
    return [list(o) for o in options]


@st.composite
def files(draw):
    kinds, tokens = draw(cligen.flags())
    how = draw(st.sampled_from(['missing', 'missing', 'misspelled', 'count', 'truncated', 'truncated', 'columns', 'absent',
                                'directory', 'empty']))
    case = draw(molgen.isomer_file(nmin=2 if how == 'count' else 1, nmax=4, modes=st.sampled_from([1, 2, 3, 4, 9]),
                                   molecules=molgen.molecule(False)))
    case['broken'] = b = {'how': how, 'at': draw(st.integers(0, 3))}
    if how in ('missing', 'misspelled'):
        b['key'] = draw(st.sampled_from(REQUIRED))
        b['spelling'] = draw(st.sampled_from([['Energie', 'Multiplicty', 'Frequencys'], ['ENERGY', 'MULTIPLICITY', 'FREQUENCIES'],
                                              ['energy', 'multiplicity', 'frequencies'],
                                              ['Energies', 'Multiplicities', 'Frequency'], ['E', 'spin', 'freqs']]))
    elif how == 'count':
        b['count'] = draw(st.sampled_from([-1, -1, -2, 0, 1, 1, 2, 3, 5, 9, 12]))
    elif how in ('truncated', 'columns'):
        b['lines'], b['columns'] = draw(st.integers(0, 40)), draw(st.integers(0, 2))
        b['newline'] = draw(st.booleans())
    case['old'] = draw(st.booleans())
    case['args'] = cligen.assemble(draw, 'in.xyz', tokens, outputs(draw))
    return case


def check_usage(case, rec):
    with clirun.workdir() as wd:
        prepare(wd, case)
        if case['frames']:
            cligen.write(wd, case['frames'])
        before = clirun.snapshot(wd)
        res = clirun.run(case['args'], wd)
        after = clirun.snapshot(wd)
        changed = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
        require(not changed and not res.hits, '%s: wrote %s', case['args'], changed or res.hits)
        require(res.error is None, '%s: %r instead of a usage error', case['args'], res.error)
        require(res.code != 0 and 'usage' in res.err.lower(), '%s: exit status %s, no usage error (%r)', case['args'],
                res.code, res.err[-200:])
    rec(case['why'], 'combined' if any(len(a) > 2 and a[0] == '-' and a[1] != '-' for a in case['args']) else 'separate',
        nontrivial=True)


@st.composite
def usages(draw):
    why = draw(st.sampled_from(['electronic', 'vibrational', 'electronic', 'vibrational', 'unknown', 'no file']))
    kinds, _ = draw(cligen.flags())
    case = draw(molgen.isomer_file(nmax=2, modes=st.integers(1, 3), extras=False, molecules=molgen.molecule(False)))
    if why == 'electronic':
        kinds = 'ES' + ''.join(k for k in kinds if k in 'CQR')
    elif why == 'vibrational':
        kinds = 'CQ' + ''.join(k for k in kinds if k in 'ESR')
    tokens = draw(cligen.spell(kinds))
    options = outputs(draw)
    if why == 'unknown':
        options.append([draw(st.sampled_from(['-x', '-z', '-t', '-P', '--verbose', '--temp', '--quantum', '--spin',
                                              '--tmax=300', '--rotational']))])
    case['args'] = cligen.assemble(draw, 'in.xyz', tokens, options)
    if why == 'no file':
        case['args'].remove('in.xyz')
    elif draw(st.integers(0, 5)) == 0:
        case['frames'] = []             # no such file either
    case.update(why=why, old=draw(st.booleans()))
    return case


TESTS = [
    Test('malformed-file', files, check_file, 1600, 30000, rule='every case: one fault in the file'),
    Test('usage', usages, check_usage, 1200, 20000, rule='every case: one usage error'),
]
