"""C10: degenerate isomers count by their multiplicity."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import build, c_tol, close, close_cols, finite, heat, mixed, p_tol, probability
from ..core import Test, Violation

FIELDS = ('E', 'g', 'F', 'sig', 'I')


def results(case, temp):
    n = gen.size_of(case)
    sa = build(case)
    return (np.asarray(finite(probability(sa, temp, n), 'occupation probability'), dtype=np.longdouble),
            finite(heat(sa, temp), 'heat capacity'))


def check_split(case, rec):
    n, ts = gen.size_of(case), case['T']
    temp = gen.temperatures(case)
    a = case['which'] % n
    g1, g2 = case['parts']
    one = dict(case, g=list(case['g']))
    one['g'][a] = g1 + g2
    two = {**case, **{k: None if case[k] is None else list(case[k]) for k in FIELDS}}
    two['g'][a] = g1
    at = case['at'] % (n + 1)
    for k in FIELDS:
        if two[k] is not None:
            two[k].insert(at, g2 if k == 'g' else case[k][a])
    i1 = a + (1 if at <= a else 0)
    p1, c1 = results(one, temp)
    p2, c2 = results(two, temp)
    tol = p_tol(case, ts)
    close_cols(p2[i1], p1[a] * g1 / (g1 + g2), tol, f'probability of the part of multiplicity {g1}')
    close_cols(p2[at], p1[a] * g2 / (g1 + g2), tol, f'probability of the part of multiplicity {g2}')
    rest1 = [i for i in range(n) if i != a]
    rest2 = [i for i in range(n + 1) if i not in (i1, at)]
    close_cols(p2[rest2], p1[rest1], tol, 'probability of the isomers not split')
    close_cols(c2, c1, c_tol(case, ts), 'heat capacity after splitting an isomer')
    ok = (p1[a] > 1e-200) & (tol < 1e-8)
    close((p2[i1] * g2)[ok], (p2[at] * g1)[ok], 1e-8, 0, 'ratio of the two parts')
    rec(f"kinds:{''.join(sorted(case['kinds']))}", 'equal parts' if g1 == g2 else 'unequal parts',
        nontrivial=n > 1 and bool(np.any(p1[a] > 1e-6)))


@st.composite
def splits(draw):
    case = draw(gen.system(kinds_=gen.kinds(electronic='S'), nmin=1, nmax=4, dmax=4, zero=True, tmin=1,
                           tmax=1e4, tiles=(1, 1, 4), grow='nt'))
    case['which'], case['at'] = draw(st.integers(0, 4)), draw(st.integers(0, 5)) + draw(st.sampled_from([0, 0, 0, 30]))
    case['parts'] = [draw(st.integers(1, 9)), draw(st.integers(1, 9))]
    return case


def check_replicate(case, rec):
    k, ts = case['k'], case['T']
    n = gen.size_of(case)
    temp = gen.temperatures(case)
    other = dict(case)
    for f in FIELDS:
        if case[f] is not None:
            other[f] = case[f] * k if case['blocks'] else [x for x in case[f] for _ in range(k)]
    p1, c1 = results(case, temp)
    p2, c2 = results(other, temp)
    want = np.tile(p1, (k, 1)) if case['blocks'] else np.repeat(p1, k, axis=0)
    close_cols(p2, want / k, p_tol(case, ts), f'probability with every isomer listed {k} times')
    close_cols(c2, c1, c_tol(case, ts), f'heat capacity with every isomer listed {k} times')
    rec(f"kinds:{''.join(sorted(case['kinds']))}", 'blocks' if case['blocks'] else 'interleaved',
        nontrivial=n > 1 and mixed(p1))


@st.composite
def replicas(draw):
    case = draw(gen.system(nmin=1, nmax=4, dmax=4, zero=True, tmin=1, tmax=1e4, tiles=(1, 1, 4), grow='nt'))
    case['k'] = draw(st.sampled_from([2, 3, 5, 40]))
    case['blocks'] = draw(st.booleans())
    return case


def check_add(case, rec):
    n = gen.size_of(case)
    temp = gen.temperatures(case)
    more = {k: v for k, v in case.items()}
    a = case['drop'] % n
    fewer = dict(case)
    for k in FIELDS:
        if case[k] is not None:
            fewer[k] = case[k][:a] + case[k][a + 1:]
    p1, c1 = results(fewer, temp)
    p2, c2 = results(more, temp)
    rest = [i for i in range(n) if i != a]
    tol = p_tol(case, case['T'])
    # one common factor, which is the part not taken by the added isomer
    close_cols(p2[rest], p1 * (1 - p2[a]), 2 * tol, 'probabilities scaled by what the added isomer leaves')
    q = p2[rest]
    for j in range(len(temp)):
        if tol[j] > 1e-8:
            continue
        ok = [i for i in range(n - 1) if p1[i, j] > 1e-200 and q[i, j] > 1e-200]
        for i in ok[1:]:
            x, y = q[i, j] / q[ok[0], j], p1[i, j] / p1[ok[0], j]
            if not abs(x - y) <= y * (1e-8 + 1e3 * (tol[j] - 1e-9)):
                raise Violation(f'ratio of two isomers changes from {y!r} to {x!r} on adding a third at {case["T"][j]} K')
    rec(f"kinds:{''.join(sorted(case['kinds']))}", 'added isomer populated' if np.any(p2[a] > 1e-6) else 'unpopulated',
        nontrivial=n > 2 and bool(np.any(p2[a] > 1e-6)))


@st.composite
def additions(draw):
    case = draw(gen.system(nmin=2, nmax=5, dmax=4, tmin=1, tmax=1e4, tiles=(1, 1, 4), grow='nt'))
    case['drop'] = draw(st.one_of(st.integers(0, 5), st.integers(0, 200)))
    return case


TESTS = [
    Test('split', splits, check_split, 3000, 60000, rule='two or more isomers, the split one populated'),
    Test('replicate', replicas, check_replicate, 3000, 60000, rule='two or more isomers sharing population'),
    Test('add', additions, check_add, 3000, 60000, rule='three or more isomers, the added one populated'),
]
