"""C15: loading an isomer file returns exactly the listed properties."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import molgen, xyz
from ..clirun import fence, workdir
from ..common import close, quiet, table
from ..core import Test, require, sut


def check(case, rec):
    from occuprob.io import load_properties_from_extxyz
    frames = case['frames']
    n, d = len(frames), len(frames[0]['freqs'])
    with workdir() as wd:
        path = os.path.join(wd, case['name'])
        data = xyz.file_text(frames)
        if case['blank_end']:
            data = data.rstrip('\n')
        with open(path, 'w') as fh:
            fh.write(data)
        with sut('loading'), quiet(), fence(wd):
            props = load_properties_from_extxyz(path)
        with open(path) as fh:
            require(fh.read() == data, 'the input file was modified')
        require(os.listdir(wd) == [case['name']], 'loading created files: %s', os.listdir(wd))
    for key in ('energy', 'multiplicity', 'frequencies', 'moments', 'symmetry'):
        require(key in props, 'no %s in the loaded properties', key)
    want = np.array([float(f['energy']) for f in frames])
    close(table(props['energy'], (n,), 'energy'), want, 1e-15, 0, 'energy')
    want = np.array([float(f['mult']) for f in frames])
    close(table(props['multiplicity'], (n,), 'multiplicity'), want, 0, 0, 'multiplicity')
    want = np.array([[float(x) for x in f['freqs']] for f in frames])
    close(table(props['frequencies'], (n, d), 'frequencies'), want, 1e-15, 0, 'frequencies')
    table(props['moments'], (n, 3), 'moments')
    table(props['symmetry'], (n,), 'symmetry')
    distinct = len(set(map(str, want.ravel().tolist()))) > 1
    rec(f'isomers:{n}' if n < 5 else 'isomers:many', f'modes:{d}', 'ints only' if all('.' not in x and 'e' not in x for f in frames for x in f['freqs'])
        else 'decimals', 'extra keys' if any(len(f['pairs']) > 4 for f in frames) else 'plain',
        nontrivial=distinct and (n > 1 or d > 1))


@st.composite
def cases(draw):
    case = draw(molgen.isomer_file(modes=st.one_of(st.sampled_from([1, 9, 9, 3, 4, 6, 16]), st.integers(1, 30), st.sampled_from([36, 49, 81, 99, 100, 159]))))
    if draw(st.integers(0, 5)) == 0:     # all-integer frequencies
        for f in case['frames']:
            f['freqs'] = [str(max(1, int(float(x)))) for x in f['freqs']]
            for p in f['pairs']:
                if p[0] == 'Frequencies':
                    p[1] = xyz.freq_value(f['freqs'])
    if draw(st.integers(0, 5)) == 0:     # imaginary modes are listed as negative numbers, some programs list zeros; any degeneracies
        for f in case['frames']:
            i = draw(st.integers(0, len(f['freqs']) - 1))
            f['freqs'][i] = draw(st.sampled_from(['-' + f['freqs'][i].lstrip('-'), '-' + f['freqs'][i].lstrip('-'), '0.0', '-0.25', '1e-7']))
            f['mult'] = draw(st.sampled_from([f['mult'], '2.5', '0.5', '4e0', '12.', '1000']))
            new = {'Frequencies': xyz.freq_value(f['freqs']), 'Multiplicity': f['mult']}
            f['pairs'] = [[p[0], new.get(p[0], p[1])] for p in f['pairs']]
    if draw(st.integers(0, 24)) == 0:    # a long list: the same structures again and again, listed energies and spins differ
        count = draw(st.sampled_from([11, 33, 65, 101, 130, 257]))
        short = [f for f in case['frames'] if len(f['symbols']) <= 6] or [dict(case['frames'][0], symbols=['Au', 'Pt'],
                                                                              pos=[[0.0, 0.0, 0.0], [0.0, 0.0, 2.5]])]
        many = []
        for k in range(count):
            f = dict(short[k % len(short)])
            f['energy'], f['mult'] = f'{-40 + (k * 37 % count) / 1000:.3f}', str(1 + k * 3 % 7)
            new = {'Energy': f['energy'], 'Multiplicity': f['mult']}
            f['pairs'] = [[key, new.get(key, value)] for key, value in f['pairs']]
            many.append(f)
        case['frames'] = many
    case['name'] = draw(st.sampled_from(['isomers.xyz', 'my.isomers.xyz', 'data set.xyz', 'x.extxyz']))
    case['blank_end'] = draw(st.booleans())
    return case


TESTS = [Test('round-trip', cases, check, 1600, 30000,
              rule='two or more isomers or modes, not all frequencies equal')]
