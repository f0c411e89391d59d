"""C16: loaded moments of inertia describe the geometry."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import molgen, mols, xyz
from ..clirun import fence, workdir
from ..common import close, quiet, table
from ..core import Test, require, sut


def load(frames, wd):
    from occuprob.io import load_properties_from_extxyz
    path = os.path.join(wd, 'isomers.xyz')
    with open(path, 'w') as fh:
        fh.write(xyz.file_text(frames))
    with sut('loading'), quiet(), fence(wd):
        return load_properties_from_extxyz(path)


def check(case, rec):
    from occuprob.partitionfunctions import RotationalPF
    frames, n = case['frames'], len(case['frames'])
    other = []
    for f, m in zip(frames, case['moves']):
        pos = mols.moved(f['pos'], m['quat'], m['shift'], m['mirror'])
        perm = [i for i in m['perm'] if i < len(pos)]
        perm = list(range(len(perm), len(pos)))[::-1] + perm
        other.append(dict(f, symbols=[f['symbols'][i] for i in perm], pos=[pos[i].tolist() for i in perm]))
    with workdir() as wd:
        one, two = load(frames, wd), load(other, wd)
    want = np.array([mols.inertia(f['symbols'], xyz.written_positions(f)) for f in frames])
    top = want.max(axis=1)
    got = table(one['moments'], (n, 3), 'moments')
    again = table(two['moments'], (n, 3), 'moments after a rigid motion')
    for a in range(n):
        # coordinates are written with few decimals in some files
        rough = {6: 3e-6, 9: 1e-8, 12: 1e-8}[frames[a]['decimals']]
        require(bool(np.all(np.diff(got[a]) >= -1e-9 * top[a])), 'moments not ascending: %s', got[a])
        close(got[a], want[a], 1e-6, 1e-8 * top[a], f'moments of isomer {a + 1} ({frames[a]["name"]})')
        close(again[a], got[a], 0, 4 * rough * top[a],
              f'moments of isomer {a + 1} ({frames[a]["name"]}) after {case["moves"][a]}')
    # the rotational weight, in particular of linear molecules
    ones = np.ones(n)
    temp = np.array([100.0, 300.0])
    with sut('rotational contribution'), quiet():
        z1 = table(RotationalPF(ones, np.asarray(got)).calc_part_func(temp), (n, 2), 'rotational weight')
        z2 = table(RotationalPF(ones, np.asarray(again)).calc_part_func(temp), (n, 2), 'rotational weight')
    for a in range(n):
        # a small moment is known only to the rounding of the coordinates
        low = min((x for x in want[a] if x > 1e-6 * top[a]), default=top[a])
        rough = {6: 3e-6, 9: 1e-8, 12: 1e-8}[frames[a]['decimals']] * 8 * top[a] / low
        close(np.asarray(z2[a] / z1[a], dtype=float), [1, 1], 0, rough,
              f'rotational weight of isomer {a + 1} ({frames[a]["name"]}) after {case["moves"][a]}')
    rec(*[f'linear:{f["order"] is None}' for f in frames], nontrivial=True)


@st.composite
def cases(draw):
    linear = draw(st.sampled_from([None, None, True]))
    case = draw(molgen.isomer_file(nmax=3, molecules=molgen.molecule(linear), extras=False, modes=st.just(2)))
    if linear is None and draw(st.integers(0, 24)) == 0:
        symbols, pos = draw(molgen.cluster((70, 110, 140)))
        pos = mols.moved(pos, draw(molgen.quat), draw(molgen.shift), draw(st.booleans()))
        case['frames'][-1].update(name='irregular', order='unknown', symbols=symbols, pos=[[round(float(x), 10) for x in r] for r in pos])
    case['moves'] = [{'quat': draw(molgen.quat), 'shift': draw(molgen.shift), 'mirror': draw(st.booleans()),
                      'perm': list(draw(st.permutations(range(12))))} for _ in case['frames']]
    return case


TESTS = [Test('rigid-motion', cases, check, 1600, 30000, rule='every case: one to three isomers moved')]
