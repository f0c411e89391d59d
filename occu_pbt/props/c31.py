"""C31: isomers out of reach change nothing."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import average, build, c_tol, close_cols, finite, heat, mixed, p_tol, probability
from ..core import Test, require

KB, H = 8.617333262145e-5, 4.135667696e-3


def insert(rows, at, new):
    return None if rows is None else rows[:at] + [new] + rows[at:]


def check(case, rec):
    n, m = gen.size_of(case), len(case['T'])
    at = case['at'] % (n + 1)
    ts = np.maximum(np.array(case['T'], dtype=float), 1e-6)
    new = case['new']
    top = max(case['E']) + case['gap']
    other = dict(case, E=insert(case['E'], at, top), g=insert(case['g'], at, new['g']), F=insert(case['F'], at, new['F']),
                 sig=insert(case['sig'], at, new['sig']), I=insert(case['I'], at, new['I']))
    temp = gen.temperatures(case)
    sa, so = build(case), build(other)
    p = finite(probability(sa, temp, n), 'occupation probability')
    q = finite(probability(so, temp, n + 1), 'occupation probability with an isomer out of reach')
    rest = np.delete(np.asarray(q), at, axis=0)
    extra = 4 * 2.3e-16 * (abs(top) + max(map(abs, case['E']))) / (KB * ts)
    # the energy zero of the added isomer is the same, so the others are computed as before
    close_cols(rest, p, p_tol(case, case['T'], 0.0), 'probabilities of the other isomers')
    require(bool(np.all(np.asarray(q)[at] <= 1e-9)), 'isomer %s eV above is occupied: %s at %s K', case['gap'], q[at], case['T'])
    close_cols(heat(so, temp), heat(sa, temp), c_tol(case, case['T'], 0.0), 'heat capacity with an isomer out of reach')
    obs = np.array((case['obs'] * n)[:n], dtype=float)[:, None] * np.ones((1, m))
    more = np.insert(obs, at, case['value'], axis=0)
    close_cols(average(so, temp, more), average(sa, temp, obs), 60 * p_tol(case, case['T'], 0.0),
               'ensemble average with an isomer out of reach')
    del extra
    rec(f"kinds:{''.join(sorted(case['kinds']))}", f"gap>{10**int(np.log10(case['gap']))}",
        'mixed' if mixed(p) else 'pure', nontrivial=n > 1 and mixed(p))


@st.composite
def cases(draw):
    kk = gen.kinds(electronic=draw(st.sampled_from('ESS')))
    case = draw(gen.system(kinds_=kk, nmin=1, nmax=5, dmax=4, zero=True, tmin=1, tmax=2000, tiles=(1, 1, 4), mmax=4, grow='nt'))
    if case['dt'] == 'i':
        case['dt'] = 'f'
    d = len(case['F'][0]) if case['F'] else 0
    # out of reach even against soft modes, large moments and zero-point energies of the others
    zpe = 0.5 * H * case['tile'] * max(sum(r) for r in case['F']) if case['F'] else 0.0
    weight = (d * case['tile'] * 8 + 40) * KB * max(case['T'] + [1e-6])
    case['gap'] = zpe + weight + draw(st.sampled_from([5.0, 30.0, 500.0, 1e4])) * max(1.0, case['unit'])
    case['new'] = {'g': draw(st.integers(1, 9)), 'F': [x * case['unit'] for x in draw(gen.freq_matrix(1, d))[0]] if d else None,
                   'sig': draw(st.sampled_from([1, 2, 12])), 'I': list(case['I'][0]) if case['I'] else None}
    case['at'] = draw(st.integers(0, 6)) + draw(st.sampled_from([0, 0, 0, 40]))
    case['obs'] = [draw(st.integers(-50, 50)) for _ in range(5)]
    case['value'] = draw(st.integers(-50, 50))
    return case


TESTS = [Test('high-isomer', cases, check, 4000, 100000, rule='two or more isomers sharing population')]
