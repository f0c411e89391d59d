"""C09: isomer order and mode order carry no meaning."""
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import average, build, c_tol, close_cols, finite, heat, p_tol, probability
from ..core import Test


def permute(rows, perm):
    return None if rows is None else [rows[i] for i in perm]


def shuffled(perm, n):
    """The permutation, extended to long lists by reversing and interleaving the rest."""
    rest = list(range(len(perm), n))[::-1]
    perm = [i for i in perm if i < n]
    half = len(rest) // 2
    return rest[:half] + perm + rest[half:]


def observable(n, m, seed):
    return np.array([[((i * 37 + j * 11 + seed) % 23) - 7.5 for j in range(m)] for i in range(n)])


def check_isomers(case, rec):
    n, ts = gen.size_of(case), case['T']
    perm = shuffled(case['perm'], n)
    other = dict(case)
    for k in ('E', 'g', 'F', 'sig', 'I'):
        other[k] = permute(case[k], perm)
    temp = gen.temperatures(case)
    a, b = build(case), build(other)
    p1, p2 = (finite(probability(x, temp, n), 'occupation probability') for x in (a, b))
    close_cols(p2, np.asarray(p1)[perm], p_tol(case, ts), f'rows after reordering the isomers to {perm}')
    close_cols(finite(heat(b, temp), 'heat capacity'), heat(a, temp), c_tol(case, ts),
               f'heat capacity after reordering the isomers to {perm}')
    obs = observable(n, len(ts), case['seed'])
    close_cols(average(b, temp, obs[perm]), average(a, temp, obs), 30 * n * p_tol(case, ts),
               f'ensemble average after reordering the isomers to {perm}')
    rec('identity' if perm == sorted(perm) else 'permuted', f"kinds:{''.join(sorted(case['kinds']))}",
        nontrivial=perm != sorted(perm))


@st.composite
def isomers(draw):
    case = draw(gen.system(nmin=2, nmax=6, dmax=5, zero=True, tmin=1, tmax=1e4, tiles=(1, 1, 4), grow='nt'))
    case['perm'] = list(draw(st.permutations(range(6))))
    case['seed'] = draw(st.integers(0, 100))
    return case


def check_modes(case, rec):
    n, ts = gen.size_of(case), case['T']
    other = dict(case)
    moved = False
    if case['F'] is not None:
        rows = []
        for a, row in enumerate(case['F']):
            perm = [i for i in case['perms'][a % len(case['perms'])] if i < len(row)]
            rows.append([row[i] for i in perm])
            moved = moved or rows[-1] != row
        other['F'] = rows
    if case['I'] is not None:
        other['I'] = [[r[i] for i in p[:3]] for r, p in zip(case['I'], itertools.cycle(case['axes']))]
        moved = moved or other['I'] != case['I']
    temp = gen.temperatures(case)
    a, b = build(case), build(other)
    close_cols(finite(probability(b, temp, n), 'occupation probability'), probability(a, temp, n),
               p_tol(case, ts), 'occupation probability after reordering modes or moments within isomers')
    close_cols(finite(heat(b, temp), 'heat capacity'), heat(a, temp), c_tol(case, ts),
               'heat capacity after reordering modes or moments within isomers')
    rec('moved' if moved else 'unmoved', f"kinds:{''.join(sorted(case['kinds']))}", nontrivial=moved)


@st.composite
def modes(draw):
    vib = draw(st.sampled_from(['C', 'Q', 'Q', '']))
    kk = gen.kinds(vibrational=vib, rotational=None if vib else 'R')
    case = draw(gen.system(kinds_=kk, nmin=2, nmax=5, dmax=7, zero=True, tmin=1, tmax=1e4, tiles=(1, 1, 3), grow='n'))
    n = min(gen.size_of(case), 6)
    case['perms'] = [list(draw(st.permutations(range(7)))) for _ in range(n)]
    case['axes'] = [list(draw(st.permutations(range(3)))) for _ in range(n)]
    return case


TESTS = [
    Test('isomers', isomers, check_isomers, 4000, 80000, rule='two or more isomers in a changed order'),
    Test('modes-and-moments', modes, check_modes, 4000, 80000, rule='some list of modes or moments changed order'),
]
