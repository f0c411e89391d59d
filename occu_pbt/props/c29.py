"""C29: only ratios of energies to kT matter."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import build, c_tol, close_cols, finite, heat, mixed, p_tol, probability
from ..core import Test


def compare(case, other, what, rec):
    n = gen.size_of(case)
    p = finite(probability(build(case), gen.temperatures(case), n), 'occupation probability')
    q = finite(probability(build(other), gen.temperatures(other), n), f'occupation probability {what}')
    c = finite(heat(build(case), gen.temperatures(case)), 'heat capacity')
    d = finite(heat(build(other), gen.temperatures(other)), f'heat capacity {what}')
    extra = 1e-15 * 4433.0 / (8.617e-5 * np.maximum(np.array(case['T'], dtype=float), 1e-6)) if case.get('inexact') else 0.0
    close_cols(q, p, p_tol(case, case['T'], extra), f'occupation probability {what}')
    close_cols(d, c, c_tol(case, case['T'], extra), f'heat capacity {what}')
    rec(f"kinds:{''.join(sorted(case['kinds']))}", 'mixed' if mixed(p) else 'pure', nontrivial=n > 1 and mixed(p))


def check_scaled(case, rec):
    f = case['factor']
    other = dict(case, T=[t * f for t in case['T']])
    if case['E'] is not None:
        other['E'] = [e * f for e in case['E']]
    if case['F'] is not None:
        other['F'] = [[x * f for x in r] for r in case['F']]
    compare(case, other, f'with energies, frequencies and temperature multiplied by {f}', rec)


@st.composite
def scaled(draw):
    case = draw(gen.system(nmin=1, nmax=5, dmax=5, tmin=2, tmax=5000, tiles=(1, 1, 4), mmax=3, grow='nt'))
    if case['E'] is not None:
        base = min(case['E'])
        case['E'] = [e - base for e in case['E']]
    if draw(st.booleans()):
        case['factor'] = 2.0**draw(st.integers(-12, 12))
    else:
        case['factor'] = draw(st.floats(1e-3, 1e3))
    # below a microkelvin the program evaluates the limit of 0 K
    case['factor'] = max(case['factor'], 2.0**np.ceil(np.log2(1e-5 / min(case['T']))))
    case['dt'] = 'f' if case['dt'] == 'i' else case['dt']
    return case


def check_common(case, rec):
    """Classical modes: a common factor of all frequencies cancels at every temperature, 0 K included."""
    other = dict(case, F=[[x * case['factor'] for x in r] for r in case['F']])
    compare(case, other, f'with classical frequencies multiplied by {case["factor"]}', rec)


@st.composite
def common(draw):
    case = draw(gen.system(kinds_=gen.kinds(vibrational='C'), nmin=1, nmax=5, dmax=6, tmin=1, tmax=1e4, zero=True,
                           tiles=(1, 1, 4, 40), mmax=3, grow='nt'))
    case['factor'] = draw(st.one_of(st.sampled_from([29.9792458, 0.0299792458, 1e-6, 1e6]), st.floats(1e-3, 1e3)))
    case['dt'] = 'f' if case['dt'] == 'i' else case['dt']
    return case


def check_transfer(case, rec):
    """A mode stiff against kT acts through its zero-point energy h*nu/2 alone."""
    n = gen.size_of(case)
    half = 0.5 * 4.135667696e-3
    other = dict(case, F=[list(r) + [s] for r, s in zip(case['F'], case['stiff'])])
    base = dict(case, E=[e + half * s for e, s in zip(case['E'], case['stiff'])])
    compare(other, base, 'with a stiff mode replaced by its zero-point energy', rec)


@st.composite
def transfer(draw):
    kk = gen.kinds(electronic=draw(st.sampled_from('ES')), vibrational='Q')
    case = draw(gen.system(kinds_=kk, nmin=1, nmax=5, dmax=4, tiles=(1,), mmax=3, grow='n',
                           temps=st.one_of(st.integers(2, 100).map(float), st.floats(2, 100))))
    n = gen.size_of(case)
    base = min(case['E'])
    case['E'] = [float(e - base) for e in case['E']]
    first = draw(st.integers(900, 1300)) / 10        # 90 THz and more: h*nu/kT above 43 at 100 K
    unit = max(1.0, max(case['T']) / 100)
    case['stiff'] = [unit * first + unit * draw(st.integers(0, 99)) / draw(st.sampled_from([10, 100])) for _ in range(n)]
    case['dt'] = 'f' if case['dt'] == 'i' else case['dt']
    return case


RULE = 'two or more isomers sharing population'
TESTS = [
    Test('scaled', scaled, check_scaled, 3000, 80000, rule=RULE),
    Test('common-frequency-factor', common, check_common, 2000, 50000, rule=RULE),
    Test('stiff-mode', transfer, check_transfer, 2000, 50000, rule=RULE),
]
