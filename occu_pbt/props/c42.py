"""C42: how an isomer file was written carries no meaning."""
import os
import pathlib

import numpy as np
from hypothesis import strategies as st

from .. import cligen, molgen, xyz
from ..clirun import fence, read_table, run, workdir
from ..common import close, quiet
from ..core import Test, require, sut

KEYS = ('energy', 'multiplicity', 'frequencies', 'moments', 'symmetry')


def load(path, wd, what):
    from occuprob.io import load_properties_from_extxyz
    with sut(what), quiet(), fence(wd):
        props = load_properties_from_extxyz(path)
    for key in KEYS:
        require(key in props, '%s: no %s in the loaded properties', what, key)
    return {k: np.asarray(props[k], dtype=np.longdouble) for k in KEYS}


def same(got, want, what, rtol=0.0):
    for key in KEYS:
        close(got[key], want[key], rtol if key in ('energy', 'frequencies') else max(rtol, 1e-12), 1e-9 if key == 'moments' else 0,
              f'{what}: {key}')


def layout(frames, case):
    """The text of the frames with the freedom the format leaves."""
    lines = []
    for f in frames:
        own = xyz.frame_text(f).rstrip('\n').split('\n')
        count, comment, atoms = own[0], own[1], own[2:]
        lines.append({0: count, 1: ' ' + count, 2: count + '  ', 3: f'{int(count):>8d}'}[case['count']])
        lines.append({0: comment, 1: comment + ' ', 2: '  ' + comment, 3: comment.replace(' Multiplicity', '   Multiplicity')}[case['comment']])
        for a in atoms:
            parts = a.split()
            if case['atoms'] == 'tabs':
                a = '\t'.join(parts)
            elif case['atoms'] == 'wide':
                a = '   ' + '      '.join(parts)
            elif case['atoms'] == 'trailing':
                a = a + '   '
            elif case['atoms'] == 'narrow':
                a = ' '.join(parts)
            elif case['atoms'] == 'exponents':
                a = ' '.join([parts[0]] + [f'{float(x):.15e}' for x in parts[1:4]] + parts[4:])
            elif case['atoms'] == 'plus':
                a = ' '.join([parts[0]] + [x if x.startswith('-') else '+' + x for x in parts[1:4]] + parts[4:])
            lines.append(a)
    text = case['eol'].join(lines)
    return text + case['eol'] * case['last']


def check_layout(case, rec):
    frames = case['frames']
    with workdir() as wd:
        cligen.write(wd, frames, 'plain.xyz')
        with open(os.path.join(wd, 'other.xyz'), 'w', newline='') as fh:
            fh.write(layout(frames, case))
        want = load(os.path.join(wd, 'plain.xyz'), wd, 'plain file')
        same(load(os.path.join(wd, 'other.xyz'), wd, 'file of other layout'), want, 'file of other layout')
    odd = [k for k, v in (('eol', '\n'), ('last', 1), ('count', 0), ('comment', 0), ('atoms', 'as is')) if case[k] != v]
    rec(*odd, f'isomers:{min(len(frames), 4)}', nontrivial=bool(odd))


@st.composite
def layout_cases(draw):
    case = draw(molgen.isomer_file(modes=st.integers(1, 9)))
    case.update(eol=draw(st.sampled_from(['\n', '\n', '\r\n'])), last=draw(st.sampled_from([0, 1, 1, 2, 3])),
                count=draw(st.integers(0, 3)), comment=draw(st.integers(0, 3)),
                atoms=draw(st.sampled_from(['as is', 'tabs', 'wide', 'trailing', 'narrow', 'exponents', 'plus'])))
    return case


def write_with_ase(path, case):
    """The way users make such files: structures with properties, written by ASE."""
    from ase import Atoms
    from ase.calculators.singlepoint import SinglePointCalculator
    from ase.io import write
    out = []
    for f in case['frames']:
        a = Atoms(f['symbols'], positions=xyz.written_positions(f))
        freqs = [float(x) for x in f['freqs']]
        if case['whole']:
            freqs = [max(1, round(x)) for x in freqs]
        values = {'Energy': float(f['energy']), 'Multiplicity': int(f['mult']),
                  'Frequencies': {'array': np.array(freqs), 'list': list(freqs), 'tuple': np.array(tuple(freqs))}[case['as']]}
        if case['numpy']:
            values['Energy'], values['Multiplicity'] = np.float64(values['Energy']), np.int64(values['Multiplicity'])
        for key in case['order']:
            a.info[key] = values[key]
        if case['more'] in ('info', 'both'):
            a.info['source'] = 'a calculation'
            a.info['step'] = 3
            a.info['dipole'] = np.array([0.1, 0.2, 0.3])
        if case['more'] in ('arrays', 'both'):
            a.set_array('forces_raw', np.zeros((len(a), 3)))
            a.set_tags(range(len(a)))
        if case['cell']:
            a.set_cell(case['cell'] * np.eye(3))
            a.set_pbc(case['cell'] > 15)
        if case['calculator']:
            a.calc = SinglePointCalculator(a, energy=-1.0, forces=np.full((len(a), 3), 0.5))
        out.append(a)
    write(path, out, format='extxyz')


def check_ase(case, rec):
    frames = case['frames']
    with workdir() as wd:
        path = os.path.join(wd, 'in.xyz')
        write_with_ase(path, case)
        with open(path, 'rb') as fh:
            data = fh.read()
        got = load(path, wd, 'file written by ASE')
        with open(path, 'rb') as fh:
            require(fh.read() == data, 'the input file was modified')
        close(got['energy'], np.array([float(f['energy']) for f in frames]), 1e-14, 0, 'energy')
        close(got['multiplicity'], np.array([float(f['mult']) for f in frames]), 0, 0, 'multiplicity')
        freqs = np.array([[max(1, round(float(x))) if case['whole'] else float(x) for x in f['freqs']] for f in frames])
        close(got['frequencies'], freqs, 1e-14, 0, 'frequencies')
        # the same structures in a file written by hand, to the eight decimals that ASE writes
        plain = []
        for f in frames:
            f = dict(f, decimals=8, pos=xyz.written_positions(f).tolist(), columns=[], sep=' ')
            f['pairs'] = [['Energy', f['energy']], ['Multiplicity', f['mult']], ['Frequencies', xyz.freq_value(f['freqs'])]]
            plain.append(f)
        cligen.write(wd, plain, 'plain.xyz')
        want = load(os.path.join(wd, 'plain.xyz'), wd, 'plain file')
        close(got['moments'], want['moments'], 1e-9, 1e-9, 'moments')
        close(got['symmetry'], want['symmetry'], 0, 0, 'symmetry order')
    rec(case['as'], case['more'], 'calculator' if case['calculator'] else 'no calculator', 'cell' if case['cell'] else 'no cell',
        f'modes:{len(frames[0]["freqs"])}', nontrivial=len(set(freqs.ravel().tolist())) > 1)


@st.composite
def ase_cases(draw):
    case = draw(molgen.isomer_file(modes=st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 9, 10, 12, 18, 27]), extras=False))
    for f in case['frames']:
        f.pop('columns')
    case['as'] = draw(st.sampled_from(['array', 'array', 'list', 'tuple']))
    case.update(order=draw(st.permutations(['Energy', 'Multiplicity', 'Frequencies'])), numpy=draw(st.booleans()),
                whole=draw(st.integers(0, 4)) == 0, more=draw(st.sampled_from(['none', 'info', 'arrays', 'both'])),
                cell=draw(st.sampled_from([0, 0, 3.0, 20.0])), calculator=draw(st.integers(0, 2)) == 0)
    return case


def check_path(case, rec):
    """However the path is spelled, by the loading function and the command line."""
    frames, how = case['frames'], case['how']
    with workdir() as wd:
        inner = os.path.join(wd, 'a b', 'c')
        cligen.write(inner, frames)
        os.symlink(os.path.join('a b', 'c', 'in.xyz'), os.path.join(wd, 'link.xyz'))
        os.symlink('a b', os.path.join(wd, 'short'))
        path = {'relative': 'a b/c/in.xyz', 'dotted': './a b/../a b/c/in.xyz', 'absolute': os.path.join(inner, 'in.xyz'),
                'link': 'link.xyz', 'linked directory': 'short/c/in.xyz', 'slashes': 'a b//c/in.xyz'}[how]
        old = os.getcwd()
        os.chdir(wd)
        try:
            want = load(os.path.join(inner, 'in.xyz'), wd, 'absolute path')
            same(load(pathlib.Path(path) if case['object'] else path, wd, f'{how} path'), want, f'{how} path')
        finally:
            os.chdir(old)
        run(case['args'] + [os.path.join(inner, 'in.xyz'), '--out_file', os.path.join(wd, 'ref')], wd).ok('absolute path')
        run(case['args'] + [path], wd).ok(f'{how} path')
        for key in 'PC':
            a, _ = read_table(os.path.join(wd, f'ref_{key}.dat'), 'absolute path')
            b, _ = read_table(os.path.join(wd, path[:-4] + f'_{key}.dat'), f'{how} path')
            close(b, a, 1e-12, 1e-12, f'{key} table by {how} path')
    rec(how, 'object' if case['object'] else 'text', nontrivial=how != 'absolute')


@st.composite
def path_cases(draw):
    kinds, tokens = draw(cligen.flags())
    case = draw(molgen.isomer_file(nmax=2, molecules=cligen.rotor_molecules(kinds), modes=st.integers(1, 4), extras=False))
    case.update(how=draw(st.sampled_from(['relative', 'dotted', 'absolute', 'link', 'linked directory', 'slashes'])),
                object=draw(st.booleans()), args=tokens + ['--max_temp', '12'])
    return case


TESTS = [
    Test('layout', layout_cases, check_layout, 900, 18000, rule='the layout differs'),
    Test('written-by-ase', ase_cases, check_ase, 700, 14000, rule='not all frequencies equal'),
    Test('paths', path_cases, check_path, 160, 3000, rule='not the absolute path'),
]
