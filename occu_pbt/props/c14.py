"""C14: ill-defined models yield no numbers."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import clirun, gen, molgen, xyz
from ..common import finite, heat, probability, quiet
from ..core import Test, Violation, require, sut

CALLS = ['partition', 'probability', 'heat', 'average', 'w', 'v']


def call(sa, what, temp, obs):
    return {'partition': lambda: sa.calc_partition_functions(temp), 'probability': lambda: sa.calc_probability(temp),
            'heat': lambda: sa.calc_heat_capacity(temp), 'average': lambda: sa.calc_ensemble_average(temp, obs),
            'w': lambda: sa.combine_contributions(temp, np.sum, 'calc_part_func_w'),
            'v': lambda: sa.combine_contributions(temp, np.sum, 'calc_part_func_v')}[what]()


def check_empty(case, rec):
    from occuprob.superpositions import SuperpositionApproximation
    n = gen.size_of(case)
    temp = gen.temperatures(case)
    obs = np.arange(n * len(temp), dtype=float).reshape(n, len(temp))
    with sut('superposition'), quiet():
        sa = SuperpositionApproximation()
        if case['empty_list']:
            sa.add_partition_functions([])
    for what in case['calls']:
        with sut(f'{what} without contributions'), quiet() as out:
            res = call(sa, what, temp, obs)
        require(res is None, '%s without contributions returned %r', what, res)
        require(out.getvalue().strip() != '', '%s without contributions printed no message', what)
    # usable afterwards
    with sut('adding contributions afterwards'), quiet():
        arr = gen.arrays(case)
        for k in case['kinds']:
            sa.add_partition_functions(gen.make_pf(k, arr))
    fresh = gen.build(case)
    p = finite(probability(sa, temp, n), 'occupation probability')
    c = finite(heat(sa, temp), 'heat capacity')
    require(np.allclose(p, probability(fresh, temp, n), rtol=1e-10, atol=1e-12)
            and np.allclose(c, heat(fresh, temp), rtol=1e-9, atol=1e-9),
            'a superposition used while empty gives other results than a fresh one')
    rec(*case['calls'], 'empty list' if case['empty_list'] else 'nothing added', nontrivial=True)


@st.composite
def empties(draw):
    case = draw(gen.system(nmax=4, dmax=3, tmin=1, tmax=2000, tiles=(1,), zero=True, grow='nt'))
    case['calls'] = draw(st.lists(st.sampled_from(CALLS), min_size=1, max_size=6))
    case['empty_list'] = draw(st.booleans())
    return case


def check_mismatch(case, rec):
    """Contributions for different numbers of isomers."""
    from occuprob.superpositions import SuperpositionApproximation
    temp = np.array(case['T'], dtype=float)
    with sut('contributions'), quiet():
        pfs = [gen.make_pf(c['kinds'], gen.arrays(c)) for c in case['parts']]
        sa = SuperpositionApproximation()
        sa.add_partition_functions(pfs)
    n = max(gen.size_of(c) for c in case['parts'])
    obs = np.ones((n, len(temp)))
    for what in CALLS:
        with quiet():
            try:
                res = call(sa, what, temp, obs)
            except Exception:  # noqa: BLE001 - an error is a correct answer here
                continue
        if res is not None:
            raise Violation(f'{what} of contributions for {[gen.size_of(c) for c in case["parts"]]} isomers '
                            f'returned {np.asarray(res)!r}')
    rec(f'sizes:{sorted(gen.size_of(c) for c in case["parts"])}', nontrivial=True)


@st.composite
def mismatches(draw):
    sizes = draw(st.lists(st.integers(1, 5), min_size=2, max_size=3).filter(lambda s: len(set(s)) > 1))
    parts = [draw(gen.system(kinds_=st.sampled_from(['E', 'S', 'C', 'Q', 'R']), nmin=k, nmax=k, dmax=3, mmax=1,
                             tiles=(1,))) for k in sizes]
    m = draw(st.sampled_from([1, 2, 3] + sizes))
    return {'parts': parts, 'T': [draw(st.integers(1, 900)) for _ in range(m)]}


def check_cli(case, rec):
    with clirun.workdir() as wd:
        with open(os.path.join(wd, 'in.xyz'), 'w') as fh:
            fh.write(xyz.file_text(case['frames']))
        before = clirun.snapshot(wd)
        res = clirun.run(case['args'], wd).ok('command line without contributions')
        require(clirun.snapshot(wd) == before, 'files changed: %s', sorted(clirun.snapshot(wd)))
        require((res.out + res.err).strip() != '', 'no message without contributions')
    rec(*[a for a in case['args'] if a.startswith('--')], nontrivial=True)


@st.composite
def cli_cases(draw):
    case = draw(molgen.isomer_file(nmax=2, modes=st.integers(1, 4), molecules=molgen.molecule(False)))
    opts = draw(st.lists(st.sampled_from([['--plot'], ['--out_file', 'result'], ['--max_temp', '20'],
                                          ['--min_temp=5'], ['--size', '4', '3'], ['--plot_format', 'png']]),
                         max_size=3, unique_by=lambda o: o[0]))
    args = [a for o in opts for a in o]
    case['args'] = draw(st.sampled_from([['in.xyz'] + args, args + ['in.xyz']]))
    return case


TESTS = [
    Test('empty', empties, check_empty, 3000, 40000, rule='every case'),
    Test('mismatch', mismatches, check_mismatch, 3000, 40000, rule='every case: two or three contributions of different size'),
    Test('command-line', cli_cases, check_cli, 400, 6000, rule='every case'),
]
