"""C05: high-temperature and equipartition limits."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..common import build, close, finite, heat, probability
from ..core import Test, require

KB, H = float(model.KB), float(model.H)


def check_classical_limit(case, rec):
    """Quantum results approach the classical ones as (h nu/kT)^2."""
    n = gen.size_of(case)
    freq = np.tile(np.array(case['F'], dtype=float), (1, case['tile']))
    scale = 1.0
    if case['E'] is not None:
        scale = max(case['E']) - min(case['E'])
    t = max(H * freq.max() / KB * case['ratio'], 1.0)
    x2 = ((H * freq / (KB * t))**2).sum(axis=1).max()
    be = scale / (KB * t) if case['E'] is not None else 0.0
    temp = np.array([t])
    pq = finite(probability(build(case), temp, n), 'quantum probability')
    cq = finite(heat(build(case), temp), 'quantum heat capacity')
    other = dict(case, kinds=case['kinds'].replace('Q', 'C'))
    pc = finite(probability(build(other), temp, n), 'classical probability')
    cc = finite(heat(build(other), temp), 'classical heat capacity')
    close(pq, pc, 0, 1e-8 + x2 / 10, f'quantum against classical occupation at {t} K')
    close(cq, cc, 0, 1e-7 + x2 * (1 + 2 * be + be**2 + x2), f'quantum against classical heat capacity at {t} K')
    if not be or be < 1e-3:
        d = freq.shape[1] + (1.5 if 'R' in case['kinds'] else 0)
        close(cq[0, 0], d, 0, 1e-6 + be**2 + 2 * x2, f'equipartition at {t} K')
    rec(f"kinds:{''.join(sorted(case['kinds']))}", f'x2<1e-4:{x2 < 1e-4}', nontrivial=n > 1)


@st.composite
def classical_limit(draw):
    kk = gen.kinds(vibrational='Q')
    case = draw(gen.system(kinds_=kk, nmin=1, nmax=5, tiles=(1, 1, 4), mmax=1, grow='n'))
    case['ratio'] = draw(st.sampled_from([300.0, 3e3, 3e4]))
    return case


def check_equipartition(case, rec):
    """One isomer, no quantum modes: the heat capacity is constant."""
    temp = gen.temperatures(case)
    c = finite(heat(build(case), temp), 'heat capacity')
    want = sum(gen.nmodes(case) for k in case['kinds'] if k == 'C') + 1.5 * case['kinds'].count('R')
    close(c, np.full((1, len(temp)), want), 1e-10, 1e-9, 'heat capacity of a single isomer')
    p = probability(build(case), temp, 1)
    close(p, np.ones((1, len(temp))), 0, 1e-12, 'probability of a single isomer')
    rec(f"kinds:{''.join(sorted(case['kinds']))}", nontrivial=want > 0)


@st.composite
def single_classical(draw):
    v = draw(st.sampled_from(['', 'C', 'C', 'C']))
    case = draw(gen.system(kinds_=gen.kinds(vibrational=v), nmax=1, zero=True, tmin=0.01, mmax=5, grow='t'))
    if draw(st.integers(0, 3)) == 0:
        case['T'].append(float('inf'))
    return case


def check_infinite(case, rec):
    """Infinite temperature: only the constant weights remain."""
    import mpmath as mp
    n = gen.size_of(case)
    ref = gen.reference(case)
    with mp.workdps(40):
        logs = ref.static_logs()
        w = [mp.exp(x - max(logs)) for x in logs]
        want = np.array([float(x / mp.fsum(w)) for x in w])
    temp = np.array([300.0, float('inf'), 1e14])
    p = finite(probability(build(case), temp, n), 'occupation probability')
    c = finite(heat(build(case), temp), 'heat capacity')
    close(p[:, 1], want, 1e-8, 1e-9, 'occupation at infinite temperature')
    close(p[:, 2], want, 1e-6, 1e-6, 'occupation at 1e14 K')
    cinf = sum(gen.nmodes(case) for k in case['kinds'] if k == 'C') + 1.5 * case['kinds'].count('R')
    close(c[0, 1:], [cinf, cinf], 1e-9, 1e-6, 'heat capacity at infinite temperature')
    rec(f"kinds:{''.join(sorted(case['kinds']))}", nontrivial=n > 1)


def infinite():
    return gen.system(kinds_=st.one_of(gen.kinds(vibrational=""), gen.kinds(vibrational="C")), nmin=1, mmax=1, grow="n")


def check_monotone(case, rec):
    """One quantum isomer: heat capacity between 0 and the number of modes, never decreasing."""
    temp = np.array(sorted(case['T']))
    c = finite(heat(build(case), temp), 'heat capacity')[0]
    extra = 1.5 * case['kinds'].count('R')
    d = gen.nmodes(case) + extra
    require(bool(np.all(c >= extra - 1e-7)), 'below the lower bound: %s', c)
    require(bool(np.all(c <= d + 1e-7 * (1 + d))), 'above equipartition: %s > %s', c, d)
    require(bool(np.all(np.diff(c) >= -1e-7 * (1 + d))), 'decreases with temperature: %s at %s', c, temp)
    rec(f'distinct temperatures:{min(len(set(case["T"])), 4)}', nontrivial=len(set(case['T'])) > 1)


TESTS = [
    Test('classical-limit', classical_limit, check_classical_limit, 1600, 40000, rule='two or more isomers'),
    Test('equipartition', single_classical, check_equipartition, 1600, 30000,
         rule='at least one classical or rotational contribution'),
    Test('infinite-temperature', infinite, check_infinite, 1600, 30000, rule='two or more isomers'),
    Test('single-quantum', lambda: gen.system(kinds_=gen.kinds(vibrational='Q'), nmax=1, mmax=8, grow='t'),
         check_monotone, 1600, 30000, rule='two or more distinct temperatures'),
]
