"""C02: occupation probabilities equal the documented Boltzmann weights."""
import numpy as np

from .. import gen, model
from ..common import build, close_cols, finite, mixed, p_tol, probability, spread
from ..core import Test, Violation


def check(case, rec):
    n = gen.size_of(case)
    sa = build(case)
    p = finite(probability(sa, gen.temperatures(case), n), 'occupation probability')
    ref = gen.reference(case)
    columns = gen.columns(case)
    if len(columns) < len(case['T']):      # the other columns of a long grid, less sharply
        ts = np.array(case['T'])
        close_cols(p, model.fast(ref, ts)[0], p_tol(case, ts) + np.minimum(1e-9 * spread(case, ts), 1), 'probabilities against the weights')
    for j in columns:
        t = case['T'][j]
        want, lo, hi = model.probabilities(ref, t)
        for a in range(n):
            got = model.mpf(p[a, j])
            slack = want[a] * model.mp.mpf('1e-12') + model.mp.mpf('1e-200')
            if not (lo[a] - slack <= got <= hi[a] + slack):
                raise Violation(f'isomer {a + 1} at {t} K: probability {p[a, j]!r}, '
                                f'documented weights give {float(want[a])!r}')
    rec(f"kinds:{''.join(sorted(case['kinds']))}", f'isomers:{min(n, 4)}',
        'mixed' if mixed(p) else 'pure', f'dtype:{case["dt"]}', nontrivial=n > 1 and mixed(p))


TESTS = [
    Test('weights', lambda: gen.system(nmin=2, mmax=3, grow='nt', wide=True), check, 1600, 40000,
         rule='an isomer has probability between 1e-6 and 1-1e-6 at some temperature'),
    Test('weights-warm', lambda: gen.system(nmin=2, nmax=4, dmax=6, tmin=50, tmax=5000, mmax=2, tiles=(1, 1, 1, 5), grow='nt', wide=True),
         check, 1600, 40000,
         rule='an isomer has probability between 1e-6 and 1-1e-6 at some temperature'),
    Test('changeover', gen.transition, check, 400, 10000,
         rule='an isomer has probability between 1e-6 and 1-1e-6 at some temperature'),
]
