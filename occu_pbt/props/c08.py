"""C08: results do not depend on the zero of energy or on common factors."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import (build, c_tol, close_cols, finite, heat, mixed, p_tol, probability)
from ..core import Test

KB, H = 8.617333262145e-5, 4.135667696e-3


def pair(case, other, ts, extra=0.0, dc=0.0, what=''):
    n = gen.size_of(case)
    temp = gen.temperatures(case, ts)
    p1 = finite(probability(build(case), temp, n), 'occupation probability')
    p2 = finite(probability(build(other), temp, n), f'occupation probability after {what}')
    c1 = finite(heat(build(case), temp), 'heat capacity')
    c2 = finite(heat(build(other), temp), f'heat capacity after {what}')
    close_cols(p2, p1, p_tol(case, ts, extra), f'occupation probability after {what}')
    close_cols(c2, np.asarray(c1) + dc, c_tol(other, ts, extra), f'heat capacity after {what}')
    return p1


def check_shift(case, rec):
    ts = case['T']
    if case['exact']:
        # multiples of 2^-12 eV: the shifted energies are exact, 0 K included
        case = dict(case, E=[round(e * 4096) / 4096 for e in case['E']])
        c = round(case['shift'] * 4096) / 4096
        extra = 0.0
    else:
        ts = [t for t in ts if t >= 1] or [300.0]
        c = case['shift']
        big = abs(c) + max(map(abs, case['E']))
        extra = 4 * 2.3e-16 * big / (KB * np.array(ts))
    other = dict(case, E=[e + c for e in case['E']])
    p = pair(case, other, ts, extra, what=f'shifting all energies by {c} eV')
    rec('exact' if case['exact'] else 'rounded', f"kinds:{''.join(sorted(case['kinds']))}",
        'mixed' if mixed(p) else 'pure', nontrivial=gen.size_of(case) > 1 and mixed(p))


@st.composite
def shifts(draw):
    case = draw(gen.system(kinds_=gen.kinds(electronic=draw(st.sampled_from('ESS'))), nmin=2, nmax=5,
                           dmax=6, zero=True, tmin=5, tmax=5000, tiles=(1, 1, 4), grow='nt'))
    case['exact'] = draw(st.booleans())
    if case['T'] == [0.0]:
        case['exact'] = True
    if draw(st.booleans()):
        case['E'] = [draw(st.integers(-50, 50)) / 512 for _ in case['E']]
    case['shift'] = draw(st.one_of(st.integers(-4000, 4000).map(float), st.floats(-5000, 5000),
                                   st.sampled_from([-1.0, 0.5, 13.6, -27211.4, 1e-3])))
    return case


def check_factor(case, rec):
    other = dict(case)
    f = case['factor']
    for what in case['what']:
        if what == 'g' and 'S' in case['kinds']:
            other['g'] = [g * f for g in case['g']]
        elif what == 'sig' and case['sig'] is not None:
            other['sig'] = [s * f for s in case['sig']]
        elif what == 'I' and case['I'] is not None:
            other['I'] = [[x * f for x in r] for r in case['I']]
    p = pair(case, other, case['T'], what=f'multiplying {case["what"]} by {f}')
    rec(*case['what'], f"kinds:{''.join(sorted(case['kinds']))}",
        nontrivial=gen.size_of(case) > 1 and mixed(p))


@st.composite
def factors(draw):
    what = draw(st.lists(st.sampled_from(['g', 'sig', 'I']), min_size=1, max_size=2, unique=True))
    kk = gen.kinds(electronic='S' if 'g' in what else None,
                   rotational='R' if ('sig' in what or 'I' in what) else None)
    case = draw(gen.system(kinds_=kk, nmin=2, nmax=5, dmax=5, zero=True, tmin=1, tmax=1e4, tiles=(1, 1, 4), grow='nt'))
    case['what'] = what
    case['factor'] = draw(st.one_of(st.integers(2, 12), st.sampled_from([0.5, 1e-3, 1e3, 2.7182818, 1.66054e-47, 1e-20, 1e20]),
                                    st.floats(1e-2, 1e3)))
    if case['dt'] == 'i' and not isinstance(case['factor'], int):
        case['dt'] = 'f'
    return case


def check_mode(case, rec):
    nu = case['nu']
    other = dict(case, F=[r[:case['at'] % (len(r) + 1)] + [nu] + r[case['at'] % (len(r) + 1):] for r in case['F']])
    ts = np.array(case['T'], dtype=float)
    dc = np.zeros(len(ts))
    x = H * nu / (KB * np.maximum(ts, 1e-300))
    for k in case['kinds']:
        if k == 'C':
            dc += 1
        elif k == 'Q':
            with np.errstate(over='ignore', invalid='ignore'):
                dc += np.where(x > 600, 0, (x / 2 / np.sinh(np.minimum(x, 600) / 2))**2)
    # the same mode everywhere has the same zero-point energy up to rounding of the sums
    p = pair(case, other, case['T'], 1e-14 * 0.5 * x, dc=dc * 1, what=f'giving every isomer a mode of {nu} THz')
    rec('position', f"kinds:{''.join(sorted(case['kinds']))}", nontrivial=gen.size_of(case) > 1 and mixed(p))


@st.composite
def modes(draw):
    case = draw(gen.system(kinds_=gen.kinds(vibrational=draw(st.sampled_from('CQQ'))), nmin=1, nmax=5, dmax=5,
                           tmin=1, tmax=1e4, tiles=(1,), grow='nt'))
    case['nu'] = draw(gen.frequency())
    case['at'] = draw(st.integers(0, 8))
    return case


RULE = 'two or more isomers, one of them with probability between 1e-6 and 1-1e-6'
TESTS = [
    Test('energy-zero', shifts, check_shift, 3000, 60000, rule=RULE),
    Test('common-factor', factors, check_factor, 3000, 60000, rule=RULE),
    Test('common-mode', modes, check_mode, 3000, 60000, rule=RULE),
]
