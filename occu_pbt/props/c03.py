"""C03: the heat capacity is the second log-derivative of the partition function."""
import numpy as np

from .. import gen, model
from ..common import build, c_tol, close_cols, finite, heat, mixed, probability, spread
from ..core import Test, Violation


def check(case, rec):
    n = gen.size_of(case)
    sa = build(case)
    temp = gen.temperatures(case)
    c = finite(heat(sa, temp), 'heat capacity')
    ref = gen.reference(case)
    columns = gen.columns(case)
    if len(columns) < len(case['T']):      # the other columns of a long grid, less sharply
        ts = np.array(case['T'])
        want = model.fast(ref, ts)[1]
        close_cols(c, want[None, :], c_tol(case, ts) + 100 * np.minimum(1e-9 * spread(case, ts), 1) + 1e-8 * np.abs(want).astype(float),
                   'heat capacities against the derivative of ln Z')
    for j in columns:
        t = case['T'][j]
        want, tol = model.heat_capacity(ref, t)
        got = model.mpf(c[0, j])
        if abs(got - want) > tol:
            raise Violation(f'{t} K: heat capacity {c[0, j]!r}, derivative of ln Z gives {float(want)!r}'
                            f' (tolerance {float(tol):.1e})')
        if got < -tol:
            raise Violation(f'{t} K: negative heat capacity {c[0, j]!r}')
    mix = n > 1 and mixed(probability(sa, temp, n), 1e-3)
    rec(f"kinds:{''.join(sorted(case['kinds']))}", 'exchange' if mix else 'no exchange',
        nontrivial=mix or (case['F'] is not None and 'Q' in case['kinds']))


RULE = 'isomers exchange population (probability within 1e-3..1-1e-3) or there are quantum modes'
TESTS = [
    Test('derivative', lambda: gen.system(mmax=2, dmax=6, grow='nt', wide=True), check, 800, 20000, rule=RULE),
    Test('derivative-warm', lambda: gen.system(nmin=2, nmax=4, dmax=6, tmin=30, tmax=5000, mmax=2,
                                               tiles=(1, 1, 1, 5), grow='nt', wide=True), check, 1600, 40000, rule=RULE),
    Test('changeover', gen.transition, check, 400, 10000, rule=RULE),
]
