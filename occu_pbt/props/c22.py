"""C22: numeric building blocks match their definitions."""
import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..common import close, quiet, table
from ..core import Test, Violation, require, sut

TEMP = st.one_of(st.integers(0, 3000).map(float), st.just(0.0), st.just(float('inf')), st.floats(1e-6, 1e9),
                 st.integers(-250, 250).map(lambda k: 10.0 ** k))


def check_beta(case, rec):
    from occuprob.utils import calc_beta, calc_exponent
    ts, es = case['T'], case['E']
    temp = gen.as_array(ts, case['dt'])
    energy = gen.as_array(es, case['dt'])
    kept = temp.copy(), energy.copy()
    with sut('calc_beta'), quiet():
        beta = table(calc_beta(temp), (len(ts),), 'inverse temperature')
    with sut('calc_exponent'), quiet():
        x = table(calc_exponent(energy, temp), (len(es), len(ts)), 'reduced energy')
    require(np.array_equal(temp, kept[0]) and np.array_equal(energy, kept[1]), 'an argument was modified')
    with mp.workdps(30):
        for j, t in enumerate(ts):
            if t == 0:
                require(beta[j] == np.inf, 'inverse temperature at 0 K: %r', beta[j])
            elif t == float('inf'):
                require(beta[j] == 0, 'inverse temperature at infinite temperature: %r', beta[j])
            else:
                want = model.beta_of(t)
                if not abs(model.mpf(beta[j]) - want) <= want * mp.mpf('1e-9'):
                    raise Violation(f'inverse temperature at {t} K: {beta[j]!r}, expected {float(want)!r}')
            for i, e in enumerate(es):
                got = x[i, j]
                if e == 0:
                    require(got == 0, 'reduced energy of 0 eV at %s K: %r', t, got)
                elif t == 0:
                    require(got == (np.inf if e > 0 else -np.inf), 'reduced energy of %s eV at 0 K: %r', e, got)
                elif t == float('inf'):
                    require(got == 0, 'reduced energy of %s eV at infinite temperature: %r', e, got)
                else:
                    want = mp.mpf(e) * model.beta_of(t)
                    if abs(want) < 1e300 and not abs(model.mpf(got) - want) <= abs(want) * mp.mpf('1e-9') + mp.mpf('1e-300'):
                        raise Violation(f'reduced energy of {e} eV at {t} K: {got!r}, expected {float(want)!r}')
    rec(case['dt'], 'M=N' if len(ts) == len(es) else 'M!=N', 'zero energy' if 0 in es else 'no zero energy',
        '0 K' if 0 in ts else 'positive', nontrivial=len(ts) > 1 and len(es) > 1)


@st.composite
def beta_cases(draw):
    energy = st.one_of(st.just(0.0), st.integers(-30, 30).map(float), st.floats(-1e5, 1e5, allow_subnormal=False),
                       st.integers(-500, 500).map(lambda k: k / 1000))
    return {'T': draw(st.lists(TEMP, min_size=1, max_size=5)), 'E': draw(st.lists(energy, min_size=1, max_size=5)),
            'dt': draw(st.sampled_from(['f', 'f', 'i', 'l']))}


def exact(x):
    """Extended precision to mpmath, beyond the range of double precision as well."""
    if x == 0:
        return mp.mpf(0)
    m, e = np.frexp(np.longdouble(x))
    return model.mpf(m) * mp.mpf(2) ** int(e)


def check_mean(case, rec):
    from occuprob.utils import calc_geometric_mean
    rows, n = case['rows'], len(case['rows'])
    arr = gen.as_array(rows, case['dt'])
    if case['lift']:     # beyond the range of double precision
        arr = gen.as_array(rows, 'l') * np.longdouble(10) ** case['lift']
        with mp.workdps(30):
            rows = [[exact(x) for x in r] for r in arr]
    kept = arr.copy()
    with sut('calc_geometric_mean'), quiet():
        got = table(calc_geometric_mean(arr), (n,), 'geometric mean')
        scaled = table(calc_geometric_mean(arr * case['scale']), (n,), 'geometric mean of scaled rows')
        perm = table(calc_geometric_mean(arr[:, ::-1]), (n,), 'geometric mean of reversed rows')
    require(np.array_equal(arr, kept), 'the argument was modified')
    with mp.workdps(30):
        for a, row in enumerate(rows):
            if 0 in row:
                require(got[a] == 0, 'geometric mean of %s: %r', row, got[a])
                continue
            want = mp.exp(mp.fsum(mp.log(mp.mpf(x)) for x in row) / len(row))
            if not abs(exact(got[a]) - want) <= want * mp.mpf('1e-11'):
                raise Violation(f'geometric mean of {row}: {got[a]!r}, expected {mp.nstr(want, 20)}')
            require(case['lift'] or min(row) * (1 - 1e-11) <= got[a] <= max(row) * (1 + 1e-11), 'geometric mean of %s: %r', row, got[a])
    close(scaled, np.asarray(got) * case['scale'], 1e-11, 0, 'geometric mean of scaled rows')
    close(perm, got, 1e-11, 0, 'geometric mean of reversed rows')
    rec(case['dt'], f'D:{min(len(rows[0]), 4)}', 'zero' if any(0 in r for r in rows) else 'positive',
        'product overflows' if not case['lift'] and any(0 not in r and abs(np.log(r).sum()) > 709 for r in rows) else 'ordinary',
        nontrivial=len(rows[0]) > 1)


@st.composite
def mean_cases(draw):
    n, d = draw(st.integers(1, 5)), draw(st.sampled_from([1, 2, 3, 5, 9, 60]))
    style = draw(st.sampled_from(['freq', 'int', 'wide', 'big']))
    val = {'freq': gen.frequency(), 'int': st.integers(1, 200).map(float), 'wide': st.floats(1e-100, 1e100),
           'big': st.floats(1e20, 1e100)}[style]
    rows = [[draw(val) for _ in range(d)] for _ in range(n)]
    if draw(st.integers(0, 4)) == 0:
        rows[draw(st.integers(0, n - 1))][draw(st.integers(0, d - 1))] = 0.0
    return {'rows': rows, 'lift': draw(st.sampled_from([0] * 7 + [400, -400, 1500])), 'scale': draw(st.sampled_from([2.0, 0.5, 1e-3, 3.7, 1e6])),
            'dt': draw(st.sampled_from(['f', 'f', 'i', 'l']))}


TESTS = [
    Test('reduced-energy', beta_cases, check_beta, 8000, 200000, rule='two or more energies and temperatures'),
    Test('geometric-mean', mean_cases, check_mean, 6000, 150000, rule='two or more entries per row'),
]
