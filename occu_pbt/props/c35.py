"""C35: overlapping calculations do not disturb each other (schedules)."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import clirun, gen, molgen, sched, xyz
from ..common import close, quiet
from ..core import Test, Violation, require, sut

CALCS = ['probability', 'heat', 'heat', 'average', 'partition', 'w', 'v', 'z0', 'w0', 'v0']


def call(world, task):
    """The calculation as a function; world: (superpositions, contributions, grids, observables)."""
    sas, pfs, grids, obs = world
    sa, pf = sas[task['on'] % len(sas)], pfs[task['on'] % len(pfs)]
    temp, b = grids[task['grid'] % len(grids)], obs[task['grid'] % len(grids)]
    return {'probability': lambda: sa.calc_probability(temp), 'heat': lambda: sa.calc_heat_capacity(temp),
            'average': lambda: sa.calc_ensemble_average(temp, b), 'partition': lambda: sa.calc_partition_functions(temp),
            'w': lambda: sa.combine_contributions(temp, np.sum, 'calc_part_func_w'),
            'v': lambda: sa.combine_contributions(temp, np.sum, 'calc_part_func_v'),
            'z0': lambda: pf.calc_part_func(temp), 'w0': lambda: pf.calc_part_func_w(temp),
            'v0': lambda: pf.calc_part_func_v(temp)}[task['what']]


def make(case):
    from occuprob.superpositions import SuperpositionApproximation
    arr = gen.arrays(case)
    pfs = [gen.make_pf(k, arr) for k in case['kinds']]
    sas = [SuperpositionApproximation()]
    sas[0].add_partition_functions(pfs)
    for k in case['others']:
        sas.append(SuperpositionApproximation())
        sas[-1].add_partition_functions(pfs[k % len(pfs):] or pfs)
    grids = [np.array(g, dtype=float) for g in case['grids']]
    n = gen.size_of(case)
    obs = [np.array([[(3 * i + j) % 7 - 3.0 for j in range(len(g))] for i in range(n)]) for g in case['grids']]
    return sas, pfs, grids, obs


def same(got, want, what):
    require(got is not None and want is not None, '%s: no result', what)
    got, want = np.asarray(got), np.asarray(want)
    finite = np.abs(want[np.isfinite(want)].astype(np.longdouble))
    close(got, want, 1e-9, 1e-13 * float(min(finite.max(), 1e300)) if finite.size else 0, what)


def slices(case, counts):
    """Slices in lines, from shares (in thousandths) of the lines of the calculation concerned."""
    return [(who % len(counts), share * max(counts[who % len(counts)], 1) // 1000) for who, share in case['slices']]


def check(case, rec):
    tasks = case['tasks']
    alone, counts = [], []
    for t in tasks:
        with sut('construction'), quiet():
            fresh = make(case)
        with sut(f'{t["what"]} alone'), quiet():
            value, lines = sched.count_lines(call(fresh, t))
        alone.append(None if value is None else np.array(value))
        counts.append(lines)
    with sut('construction'), quiet():
        world = make(case)
    run = sched.Interleaved([call(world, t) for t in tasks], slices(case, counts))
    with quiet():
        results = run.run()
    names = [f"{t['what']} ({k + 1})" for k, t in enumerate(tasks)]
    for name, (value, exc), want in zip(names, results, alone):
        if exc is not None:
            raise Violation(f'{names} overlapping: {name} raised {type(exc).__name__}: {exc}') from exc
        same(value, want, f'{names} overlapping: {name} against the same calculation alone')
    for name, t, want in zip(names, tasks, alone):
        with sut(f'{name} afterwards'), quiet():
            value = call(world, t)()
        same(value, want, f'{names} overlapping: {name} repeated afterwards')
    rec(*{t['what'] for t in tasks}, f'calculations:{len(tasks)}', f'switches:{min(run.switches, 4)}',
        'other temperatures' if len({t['grid'] % len(case['grids']) for t in tasks}) > 1 else 'same temperatures',
        nontrivial=run.switches > 1)


share = st.one_of(st.integers(0, 999), st.integers(0, 40))


@st.composite
def cases(draw):
    case = draw(gen.system(nmin=1, nmax=4, dmax=3, mmax=1, tiles=(1,)))
    case['grids'] = draw(st.lists(st.lists(st.one_of(st.integers(0, 900), st.integers(1, 900)).map(float), min_size=1, max_size=4),
                                  min_size=1, max_size=3))
    k = draw(st.sampled_from([2, 2, 3, 4]))
    case['others'] = draw(st.lists(st.integers(0, 2), max_size=2))
    case['tasks'] = [{'what': draw(st.sampled_from(CALCS)), 'on': draw(st.integers(0, 2)), 'grid': draw(st.integers(0, 2))} for _ in range(k)]
    case['slices'] = [list(x) for x in draw(st.lists(st.tuples(st.integers(0, k - 1), share), min_size=1, max_size=8))]
    return case


def check_files(case, rec):
    from occuprob.io import calc_symmetry_order, load_properties_from_extxyz
    with clirun.workdir() as wd:
        paths = []
        for k, frames in enumerate(case['files']):
            paths.append(os.path.join(wd, f'in{k}.xyz'))
            with open(paths[-1], 'w') as fh:
                fh.write(xyz.file_text(frames))

        def job(t):
            path = paths[t['file'] % len(paths)]
            if t['what'] == 'load':
                return lambda: load_properties_from_extxyz(path)
            atoms = xyz_atoms(case['files'][t['file'] % len(paths)][0])
            return lambda: {'symmetry': calc_symmetry_order(atoms)}
        alone, counts = [], []
        with clirun.fence(wd):
            for t in case['tasks']:
                with sut(f'{t["what"]} alone'), quiet():
                    value, lines = sched.count_lines(job(t))
                alone.append(value)
                counts.append(lines)
            run = sched.Interleaved([job(t) for t in case['tasks']], slices(case, counts))
            with quiet():
                results = run.run()
        for t, (value, exc), want in zip(case['tasks'], results, alone):
            if exc is not None:
                raise Violation(f'overlapping {t["what"]}: raised {type(exc).__name__}: {exc}') from exc
            require(set(value) == set(want), 'overlapping %s: keys %s', t['what'], sorted(value))
            for key in want:
                same(value[key], want[key], f'overlapping {t["what"]} of {case["tasks"]}: {key}')
    rec(f'tasks:{len(case["tasks"])}', f'switches:{min(run.switches, 4)}', nontrivial=run.switches > 1)


def xyz_atoms(frame):
    from ase import Atoms
    return Atoms(frame['symbols'], frame['pos'])


@st.composite
def files(draw):
    out = []
    for _ in range(draw(st.integers(1, 2))):
        out.append(draw(molgen.isomer_file(nmax=3, modes=st.integers(1, 4), molecules=molgen.molecule(False)))['frames'])
    k = draw(st.sampled_from([2, 2, 3]))
    return {'files': out, 'tasks': [{'what': draw(st.sampled_from(['load', 'load', 'load', 'order'])), 'file': draw(st.integers(0, 1))}
                                    for _ in range(k)],
            'slices': [list(x) for x in draw(st.lists(st.tuples(st.integers(0, k - 1), share), min_size=1, max_size=8))]}


RULE = 'the schedule switched between the calculations at least twice before one had ended'
TESTS = [Test('calculations', cases, check, 3000, 60000, rule=RULE), Test('loading', files, check_files, 400, 8000, rule=RULE)]
