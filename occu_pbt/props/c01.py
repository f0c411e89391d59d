"""C01: occupation probabilities form a normalised distribution."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import build, finite, mixed, probability
from ..core import Test, require


def check(case, rec):
    case = dict(case)
    rep = case.pop('rep', 1)
    if rep > 1:
        for k in ('E', 'g', 'F', 'sig', 'I'):
            if case[k] is not None:
                case[k] = case[k] * rep
    n = gen.size_of(case)
    sa = build(case)
    temp = gen.temperatures(case)
    p = finite(probability(sa, temp, n), 'occupation probability')
    require(bool(np.all(p >= 0)), 'negative probability %s', p.min())
    require(bool(np.all(p <= 1 + 1e-8)), 'probability above one: %s', p.max())
    total = p.sum(axis=0)
    require(bool(np.all(np.abs(total - 1) <= 1e-8)), 'columns sum to %s', total)
    if n > 1:
        rec('mixed' if mixed(p) else 'pure', nontrivial=True)
    rec(f"kinds:{''.join(sorted(case['kinds']))}", 'T=0' if 0.0 in case['T'] else 'T>0',
        'modes>200' if gen.nmodes(case) > 200 else 'modes<=200', 'many isomers' if n > 20 else 'few isomers')


@st.composite
def normal(draw):
    case = draw(gen.system(zero=True, mmax=6, grow='nt', wide=True))
    case['rep'] = draw(st.sampled_from([1, 1, 1, 1, 7, 60]))
    return case


@st.composite
def extreme(draw):
    """Magnitudes at which the partition functions themselves are not representable."""
    case = draw(gen.system(zero=True, nmin=2, grow='t', tmin=0.001, tmax=1e7, tiles=(1, 4, 40, 300), wide=True))
    if case['E'] is not None and draw(st.booleans()):
        f = draw(st.sampled_from([10.0, 1e3]))
        case['E'] = [e * f for e in case['E']]
    if case['F'] is not None and draw(st.integers(0, 2)) == 0:
        f = draw(st.sampled_from([1e-3, 10.0]))
        case['F'] = [[x * f for x in r] for r in case['F']]
    if case['I'] is not None and draw(st.booleans()):
        case['I'] = [[x * 1e4 for x in r] for r in case['I']]
    if 'Q' not in case['kinds'] and draw(st.booleans()):
        case['T'] = case['T'] + [float('inf')]
    return case


TESTS = [
    Test('distribution', normal, check, 2400, 60000, rule='two or more isomers'),
    Test('distribution-extreme', extreme, check, 2400, 60000,
         rule='two or more isomers, with magnitudes beyond the range of the plain partition functions'),
]
