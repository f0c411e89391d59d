"""Strategies for molecules and isomer files."""
import numpy as np
from hypothesis import strategies as st

from . import mols, xyz

quat = st.one_of(st.just([1, 0, 0, 0]), st.just([0.5, 0.5, 0.5, 0.5]), st.just([0.70710678, 0, 0.70710678, 0]),
                 st.lists(st.integers(-50, 50).map(lambda k: k / 50), min_size=4, max_size=4))
shift = st.one_of(st.just([0.0, 0.0, 0.0]), st.lists(st.integers(-4000, 4000).map(lambda k: k / 100), min_size=3, max_size=3))


@st.composite
def irregular(draw, nmin=3, nmax=8):
    """Random atoms at least 1 Angstrom apart, clearly non-linear."""
    n = draw(st.integers(nmin, nmax))
    symbols = [draw(st.sampled_from(mols.ELEMENTS)) for _ in range(n)]
    # a bent chain with random excursions: no rejection needed for the distances along it
    pos = [[0.0, 0.0, 0.0], [1.5, 0.0, 0.0], [1.5 + draw(st.integers(0, 9)) / 10, 1.4, 0.0]]
    k = 3
    while len(pos) < n:
        base = pos[draw(st.integers(0, len(pos) - 1))]
        d = [draw(st.integers(-20, 20)) / 20 for _ in range(3)]
        r = np.linalg.norm(d)
        d = np.array(d) / r if r > 0.2 else np.array([0, 0, 1.0])
        p = np.array(base) + 1.6 * d
        if all(np.linalg.norm(p - q) > 0.9 for q in np.array(pos)):
            pos.append(p.tolist())
        k += 1
        if k > 60:
            break
    return symbols[:len(pos)], pos


def dedupe(pos):
    return mols.min_distance(pos) > 0.8


@st.composite
def cluster(draw, sizes=(9, 13, 20, 27, 38, 55)):
    """Many atoms: a piece of a distorted lattice."""
    n, salt = draw(st.sampled_from(sizes)), draw(st.integers(1, 10**6))
    rng = np.random.default_rng(salt)
    grid = [[i, j, k] for i in range(6) for j in range(5) for k in range(5)]
    pos = np.array(grid)[rng.permutation(150)[:n]] * 2.6 + rng.uniform(-0.4, 0.4, (n, 3))
    kinds = draw(st.lists(st.sampled_from(mols.ELEMENTS), min_size=1, max_size=3))
    return [kinds[i % len(kinds)] for i in range(n)], pos.round(6).tolist()


@st.composite
def molecule(draw, linear=None):
    """(name, symbols, positions, symmetry order or None), placed and oriented at random."""
    kind = draw(st.sampled_from(['curated'] * 4 + ['irregular'] * 2 + ['cluster'] * (draw(st.integers(0, 4)) == 0))) if linear is None else 'linear' if linear else 'curated'
    if kind in ('irregular', 'cluster'):
        symbols, pos = draw(irregular() if kind == 'irregular' else cluster())
        name, order = 'irregular', 'unknown'
    else:
        src = mols.LINEAR if kind == 'linear' else mols.CURATED
        name = draw(st.sampled_from(sorted(src)))
        symbols, pos = src[name][0], src[name][1]
        order = src[name][2] if kind == 'curated' else None
    pos = mols.moved(pos, draw(quat), draw(shift), draw(st.booleans()))
    perm = draw(st.permutations(range(len(symbols)))) if kind != 'cluster' else list(range(len(symbols)))
    return {'name': name, 'symbols': [symbols[i] for i in perm], 'pos': [[round(float(x), 10) for x in pos[i]] for i in perm],
            'order': order}


number_style = st.sampled_from(['int', 'dec', 'dec', 'dec', 'exp', 'exp'])


@st.composite
def freq_text(draw, mixed_=True):
    k = draw(st.integers(5, 99999))
    style = draw(number_style)
    if style == 'int':
        return str(max(1, k // 1000))
    if style == 'dec':
        return draw(st.sampled_from([f'{k / 1000:.3f}', f'{k / 1000:.1f}' if k >= 100 else f'{k / 1000:.3f}',
                                     f'{k / 1000 + 1e-9 * (k % 977):.12f}']))
    return draw(st.sampled_from([f'{k / 1000:.6e}', f'{k / 1000:.5E}', f'{k}e-3']))


@st.composite
def soft_text(draw):
    """Low frequencies, so that zero-point energies do not separate the isomers."""
    k = draw(st.integers(20, 9999))
    style = draw(number_style)
    if style == 'int':
        return str(max(1, k // 1000))
    return f'{k / 1000:.3f}' if style == 'dec' else f'{k / 1000:.6e}'


@st.composite
def close_energy_text(draw):
    k = draw(st.integers(0, 90))
    return f'{-4433.12 + k / 1000:.3f}'


@st.composite
def energy_text(draw):
    style = draw(st.sampled_from(['int', 'dec', 'dec', 'dec', 'exp', 'long']))
    k = draw(st.integers(-500, 500))
    base = draw(st.sampled_from([0, 0, -4433, -76, 12]))
    if style == 'int':
        return str(base + k // 100)
    if style == 'dec':
        return f'{base + k / 1000:.3f}'
    if style == 'exp':
        return f'{base + k / 1000:.10e}'
    return repr(base + k / 1000 + 1.23456789e-7)


EXTRA = [['pbc', '"F F F"'], ['Name', 'isomer'], ['config_type', 'cluster'], ['dipole', '"0.1 -0.2 0.3"'],
         ['Charge', '-1'], ['Point_group', 'C2v'], ['Frequency_unit', 'THz'], ['Label', '"two words"'],
         ['Zero_point', '0.125'], ['relaxed', 'T'], ['Frequencies_raw', '"9 8 7 6"'], ['Energy_unit', 'eV'],
         ['Multiplicities', '"1 3 5"'], ['flag', None],
         # names close to the documented ones, and quantities the program derives itself
         ['energy', '-1.5'], ['ENERGY', '3'], ['E', '7.0'], ['free_energy', '0.25'], ['Energy_0', '-2e-3'],
         ['multiplicity', '5'], ['Spin', '2.5'], ['spin', '1'], ['Degeneracy', '4'], ['Weight', '0.5'],
         ['frequencies', '"1 2 3"'], ['Frequency', '"3.5 4.5"'], ['freqs', '4'], ['Units', 'cm-1'], ['Scale', '2.0'],
         ['Symmetry', '6'], ['symmetry_order', '12'], ['Sigma', '3'], ['Moments', '"1 2 3"'],
         ['moments_of_inertia', '"4 5 6"'], ['Masses', '"1 1 1"'], ['Temperature', '300'], ['stress', '"1 2 3 4 5 6 7 8 9"'],
         ['magmom', '2.0'], ['Linear', 'T'], ['Isomer', '3'], ['Exclude', 'F']]
CELLS = ['"9 0 0 0 9 0 0 0 9"', '"2.5 0.0 0.0 0.0 2.5 0.0 0.0 0.0 2.5"', '"30 0 0 -15 26 0 0 0 12.5"']
COLUMNS = [['forces', 'R', 3], ['charge', 'R', 1], ['tags', 'I', 1], ['layer', 'I', 1], ['magmom_xyz', 'R', 3]]


@st.composite
def isomer_file(draw, nmin=1, nmax=4, molecules=None, extras=True, modes=None, close=None):
    """A case describing a whole Extended XYZ file."""
    n = draw(st.integers(nmin, nmax))
    d = draw(modes if modes is not None else st.sampled_from([1, 2, 3, 3, 5, 6, 9, 9, 12, 18]))
    frames = []
    molecules = molecule() if molecules is None else molecules
    close = draw(st.booleans()) if close is None else close
    styles = st.sampled_from(['quotes', 'quotes', 'quotes', 'spaced', 'single', 'braces', 'commas', 'bare'])
    for _ in range(n):
        m = draw(molecules)
        energy, mult = draw(close_energy_text() if close else energy_text()), str(draw(st.integers(1, 9)))
        freqs = [draw(soft_text() if close else freq_text()) for _ in range(d)]
        pairs = [['Energy', energy], ['Multiplicity', mult], ['Frequencies', xyz.freq_value(freqs, draw(styles))]]
        columns = draw(st.lists(st.sampled_from(COLUMNS), max_size=2, unique_by=lambda c: c[0])) if draw(st.integers(0, 4)) == 0 else []
        if columns or draw(st.booleans()):
            pairs.insert(0, ['Properties', xyz.properties(columns)])
        if draw(st.integers(0, 3)) == 0:       # the periodic box of the electronic-structure program
            pairs.insert(0, ['Lattice', draw(st.sampled_from(CELLS))])
            if draw(st.booleans()):
                pairs.append(['pbc', draw(st.sampled_from(['"T T T"', '"F F F"', '"T T F"']))])
        if extras:
            for e in draw(st.lists(st.sampled_from(EXTRA), max_size=3, unique_by=lambda e: e[0])):
                if e[0] not in [k for k, _ in pairs]:
                    pairs.append(e)
            order = draw(st.permutations(range(len(pairs))))
            pairs = [pairs[i] for i in order]
        frames.append({'symbols': m['symbols'], 'pos': m['pos'], 'pairs': pairs, 'decimals': draw(st.sampled_from([6, 9, 12])),
                       'columns': columns,
                       'name': m['name'], 'order': m['order'], 'energy': energy, 'mult': mult, 'freqs': freqs,
                       'sep': draw(st.sampled_from([' ', ' ', '  ']))})
    return {'frames': frames}
