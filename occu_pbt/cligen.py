"""Argument lists and expectations shared by the command-line properties."""
import os

import numpy as np
from hypothesis import strategies as st

from . import clirun, molgen, mols, xyz


@st.composite
def flags(draw, need=None):
    """(kinds, list of tokens): a permitted combination of contribution flags, spelled at random."""
    el = draw(st.sampled_from(['', 'E', 'S', 'S']))
    vi = draw(st.sampled_from(['', 'C', 'Q', 'Q']))
    ro = draw(st.sampled_from(['', 'R'])) if need is None else need
    kinds = (el + vi + ro) or 'S'
    return kinds, draw(spell(kinds))


@st.composite
def spell(draw, kinds):
    letters = list(draw(st.permutations(list(kinds))))
    letters = [c.lower() if draw(st.booleans()) else c for c in letters]
    tokens, i = [], 0
    while i < len(letters):
        k = draw(st.integers(1, len(letters) - i))
        tokens.append('-' + ''.join(letters[i:i + k]))
        i += k
    return tokens


def option(draw, name, value):
    return draw(st.sampled_from([[f'{name}={value}'], [name, str(value)]]))


def assemble(draw, infile, tokens, options):
    """Any order of arguments; options are lists that stay together."""
    parts = [[infile]] + [[t] for t in tokens] + options
    order = draw(st.permutations(range(len(parts))))
    out = []
    for i in order:
        out += parts[i]
    return out


def system_case(frames, kinds):
    """The case dictionary (see gen) that a file describes, from the written texts."""
    pos = [xyz.written_positions(f) for f in frames]
    case = {'kinds': kinds, 'E': None, 'g': None, 'F': None, 'sig': None, 'I': None, 'tile': 1}
    if 'E' in kinds or 'S' in kinds:
        case['E'] = [float(f['energy']) for f in frames]
        case['g'] = [float(f['mult']) for f in frames]
    if 'C' in kinds or 'Q' in kinds:
        case['F'] = [[float(x) for x in f['freqs']] for f in frames]
    if 'R' in kinds:
        case['sig'] = [f['order'] for f in frames]
        case['I'] = [[float(x) for x in mols.inertia(f['symbols'], p)] for f, p in zip(frames, pos)]
    return case


def write(wd, frames, name='in.xyz'):
    path = os.path.join(wd, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as fh:
        fh.write(xyz.file_text(frames))
    return path


def tables(prefix):
    p, _ = clirun.read_table(prefix + '_P.dat', 'probability table')
    c, _ = clirun.read_table(prefix + '_C.dat', 'heat capacity table')
    return p, c


def rotor_molecules(kinds):
    """With the rotational contribution only molecules whose symmetry order is beyond doubt."""
    return molgen.molecule(False) if 'R' in kinds else molgen.molecule()


def relabel(frames, kinds):
    """Without R the symmetry order plays no part."""
    return frames


__all__ = ['flags', 'spell', 'option', 'assemble', 'system_case', 'write', 'tables', 'rotor_molecules', 'np']
