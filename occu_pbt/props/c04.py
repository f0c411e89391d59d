"""C04: 0 K is the limit of low temperature."""
import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..common import build, close, finite, heat, probability
from ..core import Test


def ground(case):
    """(occupied isomers, gap to the next level in eV); gap None when too close to call."""
    with mp.workdps(40):
        ref = gen.reference(case)
        e0 = ref.ground_energies()
        low = min(e0)
        occ = [a for a, e in enumerate(e0) if e - low < mp.mpf('1e-25')]
        rest = [e - low for a, e in enumerate(e0) if a not in occ]
        gap = min(rest) if rest else mp.mpf(1)
        w = [mp.exp(x) for x in ref.static_logs()] if gap else None
        z = mp.fsum(w[a] for a in occ)
        p = [float(w[a] / z) if a in occ else 0.0 for a in range(ref.n)]
        return occ, float(gap), np.array(p)


def equipartition(case):
    return sum(gen.nmodes(case) for k in case['kinds'] if k == 'C') + 1.5 * case['kinds'].count('R')


def check(case, rec):
    occ, gap, want = ground(case)
    n = gen.size_of(case)
    if gap < 3e-9:
        rec('levels too close to call')
        return
    sa = build(case)
    # far below every gap and every vibrational quantum
    quantum = min((float(model.H) * min(r) for r in case['F']), default=1.0) if 'Q' in case['kinds'] else 1.0
    tlow = min(gap, quantum) / float(model.KB) / case['margin']
    grid = np.array([0.0, tlow] + case['T'])
    order = case['order'] % 3
    if order == 1:
        grid = grid[::-1]
    elif order == 2:
        grid = np.array([0.0])
    i0 = int(np.where(grid == 0)[0][0])
    p = finite(probability(sa, grid, n), 'occupation probability')
    c = finite(heat(sa, grid), 'heat capacity')
    close(p[:, i0], want, 0, 1e-6, 'occupation at 0 K')
    close(c[0, i0], equipartition(case), 0, 1e-5, 'heat capacity at 0 K')
    if order != 2:
        i1 = int(np.where(grid == tlow)[0][0])
        close(p[:, i1], p[:, i0], 0, 1e-6, f'occupation at {tlow} K against 0 K')
        close(c[0, i1], c[0, i0], 0, 1e-5, f'heat capacity at {tlow} K against 0 K')
    if case['T'] and all(float(t).is_integer() for t in case['T']):
        # integer grid starting at 0, as in the documentation
        ig = np.array([0] + [int(t) for t in case['T']])
        close(probability(sa, ig, n)[:, 0], want, 0, 1e-6, 'occupation at 0 K (integer grid)')
        close(heat(sa, ig)[0, 0], equipartition(case), 0, 1e-5, 'heat capacity at 0 K (integer grid)')
    zpe = case['E'] is not None and 'Q' in case['kinds'] and occ[0] != int(np.argmin(case['E']))
    rec(f"kinds:{''.join(sorted(case['kinds']))}", f'degenerate:{min(len(occ), 3)}',
        'zero-point reordering' if zpe else 'no reordering', nontrivial=n > 1)


@st.composite
def cases(draw):
    case = draw(gen.system(nmin=1, nmax=5, dmax=6, mmax=2, temps=st.integers(1, 900).map(float),
                           tiles=(1, 1, 1, 4), grow='nt'))
    n = gen.size_of(case)
    if n > 1 and draw(st.integers(0, 2)) == 0:      # exact ground-state degeneracy
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        for k in ('E', 'F'):
            if case[k] is not None:
                case[k][b] = list(case[k][a]) if k == 'F' else case[k][a]
    if case['E'] is not None and case['F'] is not None and draw(st.integers(0, 2)) == 0:
        # electronic differences comparable to zero-point differences
        case['E'] = [-10.0 + draw(st.integers(0, 40)) * 1e-3 for _ in range(n)]
    if case['E'] is not None and n > 1 and draw(st.integers(0, 5)) == 0:
        # levels only tens of nanoelectronvolts apart
        base = draw(st.sampled_from([0.0, 0.5, -12.25]))
        case['E'] = [base + draw(st.integers(0, 30)) * 2.0**-26 for _ in range(n)]
    case['margin'] = draw(st.sampled_from([80, 200, 1000]))
    case['order'] = draw(st.integers(0, 2))
    return case


TESTS = [Test('zero-kelvin', cases, check, 4000, 100000, rule='two or more isomers')]
