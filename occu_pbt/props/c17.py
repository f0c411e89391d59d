"""C17: the symmetry order is that of the rotational subgroup."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import molgen, mols, xyz
from ..clirun import fence, workdir
from ..common import quiet
from ..core import Test, require, sut

LOW_GROUPS = {'C1', 'Cs', 'Ci', 'C2', 'C2v', 'C2h', 'D2', 'D2h'}
CUBIC = {'T', 'Th', 'Td', 'O', 'Oh', 'I', 'Ih'}


def judged(symbols, pos, group):
    """The exact number of proper rotations, or (None, reason) when the symmetry is ambiguous at the
    tolerances involved (0.3 Angstrom for positions, 0.01 for normalised moments)."""
    if mols.min_distance(pos) < 1.15:
        return None, 'atoms too close'
    radius = np.linalg.norm(pos - mols.com(symbols, pos), axis=1).max()
    if (group in CUBIC or group is None) and (mols.min_distance(pos) < 1.5 or radius < 2.4):
        # a rotation by 72 instead of 90 degrees displaces atoms by less than the tolerance
        return None, 'too small for a spherical top'
    w = mols.inertia(symbols, pos)
    w = w / (w.sum() / 2)
    if w.prod() < 0.03:
        return None, 'nearly linear'
    gaps = [w[1] - w[0], w[2] - w[1]]
    for g in gaps:
        if 1e-6 < g < 0.016:
            return None, 'moments nearly degenerate'
    small = sum(g <= 1e-6 for g in gaps)
    if group is not None:
        if (group in LOW_GROUPS and small) or (group not in CUBIC and small == 2):
            return None, 'moments degenerate by accident'
    exact = mols.proper_rotations(symbols, pos, 0.01)
    if exact is None:
        return None, 'no reference pair'
    if smallest_shell(symbols, pos) > 30:
        return None, 'axes of a large shell are found only approximately'
    if exact > 20 and group not in CUBIC:
        return None, 'rotations by less than 36 degrees, the same at the tolerance'
    mirrored = mols.proper_rotations(symbols, pos, 0.01, True)
    for tol in (0.3, 0.6, 0.9):
        if mols.proper_rotations(symbols, pos, tol) != exact:
            return None, 'nearly more symmetric'
        if mols.proper_rotations(symbols, pos, tol, True) != mirrored:
            # approximate reflections combine to spurious rotations
            return None, 'nearly mirror-symmetric'
    return exact, None


FINDING = 'tetrahedral-with-octahedral-shell'


def smallest_shell(symbols, pos):
    """Size of the smallest set of equal atoms at one distance from the centre (not the centre itself)."""
    r = np.linalg.norm(pos - mols.com(symbols, pos), axis=1)
    sizes = {}
    for s, x in zip(symbols, r):
        if x > 0.3:
            sizes[s, round(float(x), 2)] = sizes.get((s, round(float(x), 2)), 0) + 1
    return min(sizes.values())


def probe():
    """An octahedron of Pt with twelve C around it: point group Td, 12 proper rotations."""
    from ase import Atoms
    from occuprob.io import calc_symmetry_order
    pos = mols.orbit('Td', [2.0, 0, 0]) + mols.orbit('Td', [3.0, 3.0, 1.2])
    with quiet():
        got = calc_symmetry_order(Atoms(['Pt'] * 6 + ['C'] * 12, pos))
    return None if got == 12 else f'Td molecule Pt6C12: symmetry order {got}, 12 proper rotations'


ACCIDENTAL = 'accidental-symmetric-top'


def probe_accidental():
    """An equilateral Pt2Au triangle: C2v, but two of its moments happen to differ by less than 1 %."""
    from ase import Atoms
    from occuprob.io import calc_symmetry_order
    pos = [[1.6, 0.0, 0.0], [-0.8, 1.3856406, 0.0], [-0.8, -1.3856406, 0.0]]
    with quiet():
        got = calc_symmetry_order(Atoms(['Pt', 'Pt', 'Au'], pos))
    return None if got == 2 else f'equilateral Pt2Au: symmetry order {got}, 2 proper rotations'


KNOWN = {FINDING: probe, ACCIDENTAL: probe_accidental}


def build(case):
    symbols, pos = [], []
    for element, seed in case['orbits']:
        pts = mols.orbit(case['group'], seed)
        symbols += [element] * len(pts)
        pos += pts
    return symbols, np.array(pos, dtype=float)


def check(case, rec):
    from ase import Atoms
    from occuprob.io import calc_symmetry_order, load_properties_from_extxyz
    if 'curated' in case:
        symbols, pos, want = mols.CURATED[case['curated']]
        pos, group = np.array(pos), case['curated']
    else:
        symbols, pos = build(case)
        group = case['group']
        if not 3 <= len(symbols) <= 62:
            rec('rejected: size')
            return
        want, reason = judged(symbols, pos, group)
        if want is None:
            rec('rejected: ' + reason)
            return
    rng = np.random.default_rng(case['noise'])
    moved = mols.moved(pos, case['quat'], case['shift'], case['mirror'])
    if case['jitter']:
        moved = moved + rng.uniform(-1, 1, moved.shape) * case['jitter']
    perm = rng.permutation(len(symbols)) if case['permute'] else np.arange(len(symbols))
    syms = [symbols[i] for i in perm]
    moved = moved[perm]
    with sut('symmetry order'), quiet():
        first = calc_symmetry_order(Atoms(syms, moved))
    if np.ndim(first) == 0 and first == 3 and want == 12 and smallest_shell(symbols, pos) == 6:
        rec.known(FINDING, f'symmetry order {first}, the molecule has {want} proper rotations')
        return
    require(np.ndim(first) == 0 and float(first) == want,
            'symmetry order %r, the molecule has %s proper rotations (%s; %s)', first, want, group,
            ''.join(sorted(set(symbols))))
    if case['via_file']:
        frame = xyz.simple_frame(syms, moved, 0.0, 1, [1.0, 2.0], decimals=8)
        with workdir() as wd:
            path = os.path.join(wd, 'm.xyz')
            with open(path, 'w') as fh:
                fh.write(xyz.file_text([frame, frame]))
            with sut('loading'), quiet(), fence(wd):
                props = load_properties_from_extxyz(path)
        require([float(x) for x in np.ravel(props['symmetry'])] == [want] * 2,
                'loaded symmetry orders %s, expected %s', props['symmetry'], want)
    rec(f'group:{group}', f'order:{want}', 'jitter' if case['jitter'] else 'exact', nontrivial=want > 1)


def placement(draw, case):
    case.update(quat=draw(molgen.quat), shift=draw(molgen.shift), mirror=draw(st.booleans()),
                jitter=draw(st.sampled_from([0.0, 0.0, 1e-5, 1e-3])), noise=draw(st.integers(0, 10**6)),
                permute=draw(st.booleans()), via_file=draw(st.integers(0, 4)) == 0)
    return case


@st.composite
def cases(draw):
    group = draw(st.sampled_from(sorted(mols.GROUPS)))
    case = {'group': group, 'orbits': [], 'scale': draw(st.sampled_from([1, 1, 1.5, 2.5]))}
    coord = st.integers(-30, 30).map(lambda k: k / 10)
    used = []
    for _ in range(draw(st.integers(1, 3 if group in LOW_GROUPS or len(mols.group(group)) <= 8 else 2))):
        for _attempt in range(3):
            style = draw(st.sampled_from(['general', 'general', 'axis', 'plane', 'x', 'centre']))
            x, y, z = draw(coord), draw(coord), draw(coord)
            seed = {'general': [x, y, z], 'axis': [0, 0, z], 'plane': [x, y, 0], 'x': [x, 0, 0],
                    'centre': [0, 0, 0]}[style]
            if group in CUBIC and style == 'plane':
                seed = [x, x, x]
            if case['scale'] != 1:
                seed = [c * case['scale'] for c in seed]
            pts = mols.orbit(group, seed, 1e-6)
            if mols.min_distance(pts + used) >= (1.5 if group in CUBIC else 1.15):
                case['orbits'].append([draw(st.sampled_from(['H', 'C', 'Pt', 'Cu'])), seed])
                used += pts
                break
    return placement(draw, case)


@st.composite
def curated(draw):
    return placement(draw, {'curated': draw(st.sampled_from(sorted(mols.CURATED)))})


TESTS = [
    Test('point-groups', cases, check, 6000, 100000, rule='judged (not rejected as ambiguous), order above 1'),
    Test('molecules', curated, check, 800, 10000, rule='order above 1'),
]
