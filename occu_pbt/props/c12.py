"""C12: ensemble averages are probability-weighted means."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import average, build, close, close_cols, finite, mixed, probability
from ..core import Test, require

LAYOUTS = ['C', 'F', 'strided', 'readonly', 'int']


def layout(arr, how):
    arr = np.array(arr, dtype=float)
    if how == 'F':
        return np.asfortranarray(arr)
    if how == 'strided':
        big = np.full((arr.shape[0] * 2, arr.shape[1] * 3), np.nan)
        big[::2, ::3] = arr
        return big[::2, ::3]
    if how == 'readonly':
        arr.flags.writeable = False
        return arr
    if how == 'int' and np.all(np.isfinite(arr)) and np.all(arr == np.round(arr)):
        return arr.astype(int)
    return arr


def check(case, rec):
    n, m = gen.size_of(case), len(case['T'])
    sa = build(case)
    temp = gen.temperatures(case)
    p = np.asarray(finite(probability(sa, temp, n), 'occupation probability'), dtype=np.longdouble)
    obs = np.array(case['B'], dtype=float)
    if case['column']:
        obs = obs[:, :1]
    full = np.broadcast_to(obs, (n, m)).astype(np.longdouble)
    size = float(np.abs(full).max()) + 1e-300
    tol = 1e-11 * size + 1e-300
    loose = 1e-8 * size + 1e-300      # the probabilities need not sum to one to the last digit
    avg = finite(average(sa, temp, layout(obs, case['layout'])), 'ensemble average')
    close(avg, (p * full).sum(axis=0)[None, :], 0, tol, 'ensemble average against the weighted sum')
    avg = np.asarray(avg, dtype=np.longdouble)
    # every isomer counts, however little it is occupied: relative to the terms of the sum themselves
    terms = np.abs(p * full).sum(axis=0)[None, :]
    require(bool(np.all(np.abs(avg - (p * full).sum(axis=0)[None, :]) <= 1e-11 * terms + 1e-290)),
            'ensemble average %s, weighted sum %s', avg, (p * full).sum(axis=0))
    a = case['pick'] % n
    for value in (1.0, 1e12):
        one = np.zeros((n, 1 if case['column'] else m))
        one[a] = value
        got = np.asarray(average(sa, temp, one), dtype=np.longdouble)
        require(bool(np.all(np.abs(got - value * p[a]) <= 1e-12 * value * p[a] + 1e-290)),
                'average %s of an observable that is %s for isomer %d only, occupied with %s', got, value, a + 1, p[a])
        if np.any((p[a] > 0) & (p[a] < 1e-9)):
            rec('rarely occupied isomer')
    require(bool(np.all(avg >= full.min(axis=0) - loose)) and bool(np.all(avg <= full.max(axis=0) + loose)),
            'ensemble average %s outside the range of the observable %s', avg, full)
    # constants
    k = case['const']
    close(average(sa, temp, np.full((n, 1 if case['column'] else m), k)), np.full((1, m), k), 0,
          1e-8 * abs(k) + 1e-300, 'average of a constant')
    # linearity
    b2 = np.array(case['B2'], dtype=float)
    x, y = case['coef']
    avg2 = np.asarray(average(sa, temp, b2), dtype=np.longdouble)
    both = average(sa, temp, np.asarray(x * full + y * b2, dtype=float))
    close(both, x * avg + y * avg2, 0, 1e-10 * (abs(x) * size + abs(y) * (np.abs(b2).max() + 1)) + 1e-300,
          'linearity')
    # non-finite values of unoccupied isomers
    dead = np.all(p == 0, axis=1)
    dead_col = p == 0
    if not case['column'] and np.any(dead_col):
        masked = np.array(full, dtype=float)
        bad = [np.nan, np.inf, -np.inf][case['bad']]
        masked[dead_col] = bad
        close(average(sa, temp, masked), avg, 0, tol, f'average with {bad} for isomers of probability zero')
        rec('unoccupied isomers')
    elif case['column'] and np.any(dead):
        masked = np.array(obs, dtype=float)
        masked[dead] = [np.nan, np.inf, -np.inf][case['bad']]
        close(average(sa, temp, masked), avg, 0, tol, 'average with non-finite values for isomers of probability zero')
        rec('unoccupied isomers (column)')
    # non-finite values of occupied isomers
    if np.all(p[a] > 1e-9):
        bad = [np.nan, np.inf, -np.inf][case['bad']]
        worse = np.array(full, dtype=float)
        worse[a, case['pick'] % m] = bad
        if case['column'] and m == 1:
            worse = worse[:, :1]
        got = np.asarray(average(sa, temp, worse), dtype=float)
        want = np.array(avg, dtype=float)
        require(bool(np.isnan(got[0, case['pick'] % m]) if np.isnan(bad) else got[0, case['pick'] % m] == bad),
                'average %s although an occupied isomer (%s) has the value %s', got, p[a], bad)
        keep = np.arange(m) != case['pick'] % m
        close(got[:, keep], want[:, keep], 0, tol, f'averages at the temperatures without {bad}')
        rec('non-finite value of an occupied isomer')
    rec('column' if case['column'] else 'full', case['layout'], 'mixed' if mixed(p) else 'pure',
        'M=N' if m == n else 'M=1' if m == 1 else 'other', nontrivial=n > 1 and mixed(p))


@st.composite
def cases(draw):
    case = draw(gen.system(nmin=1, nmax=5, dmax=4, zero=True, tmin=1, tmax=1e4, tiles=(1, 1, 4), mmax=5, grow='nt'))
    n, m = gen.size_of(case), len(case['T'])
    style = draw(st.sampled_from(['int', 'float', 'big']))
    val = {'int': st.integers(-20, 20).map(float), 'float': st.floats(-1e3, 1e3),
           'big': st.integers(-10**6, 10**6).map(lambda k: k * 1e9)}[style]
    few = [[draw(val) for _ in range(min(m, 6))] for _ in range(min(n, 6))]
    case['B'] = [[few[i % len(few)][j % 6] for j in range(m)] for i in range(n)]
    salt = draw(st.integers(0, 1000))
    case['B2'] = [[(i * 7 + j * 5 + salt * (1 + i * j)) % 19 - 9 for j in range(m)] for i in range(n)]
    case['coef'] = [draw(st.integers(-4, 4)), draw(st.integers(-4, 4)) / 4]
    case['const'] = draw(st.one_of(st.integers(-100, 100).map(float), st.floats(-1e8, 1e8)))
    case['column'] = draw(st.booleans())
    case['layout'] = draw(st.sampled_from(LAYOUTS))
    case['pick'] = draw(st.integers(0, 4)) + draw(st.sampled_from([0, 0, 7, 60]))
    case['bad'] = draw(st.integers(0, 2))
    return case


TESTS = [Test('average', cases, check, 6000, 120000, rule='two or more isomers sharing population')]
