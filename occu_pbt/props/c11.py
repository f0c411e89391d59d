"""C11: each temperature is evaluated independently of the rest of the grid."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import build, c_tol, close_cols, finite, heat, p_tol, probability, quiet, table
from ..core import Test, sut


def all_results(sa, case, temp, n):
    p = finite(probability(sa, temp, n), 'occupation probability')
    c = finite(heat(sa, temp), 'heat capacity')
    with sut('contributions'), quiet():
        w = table(sa.combine_contributions(temp, np.sum, 'calc_part_func_w'), (n, len(temp)), 'calc_part_func_w')
        z = table(sa.calc_partition_functions(temp), (n, len(temp)), 'partition functions')
    return [np.asarray(x, dtype=np.longdouble) for x in (p, c, w, z)]


def check(case, rec):
    n, ts = gen.size_of(case), case['T']
    sa = build(case)
    full = all_results(sa, case, np.array(ts, dtype=float), n)
    tp, tc = p_tol(case, ts), c_tol(case, ts)

    def compare(idx, temp, what):
        got = all_results(sa, case, temp, n)
        close_cols(got[0], full[0][:, idx], tp[idx], f'occupation probability, {what}')
        close_cols(got[1], full[1][:, idx], tc[idx], f'heat capacity, {what}')
        pos = np.array(ts)[idx] > 0
        if np.any(pos):
            w, ref = got[2][:, pos], full[2][:, idx][:, pos]
            close_cols(w, ref, 1e-10 * (1 + np.abs(ref).max(axis=0).astype(float)), f'first derivative, {what}')
            z, ref = got[3][:, pos], full[3][:, idx][:, pos]
            # logarithms: the values span hundreds of orders of magnitude
            ok = (ref > 1e-280) & (ref < 1e280)
            zz = np.where(ok, z, 1)
            if np.any(zz <= 0):
                zz = np.where(zz <= 0, 1e-300, zz)
            close_cols(np.log(zz), np.log(np.where(ok, ref, 1)), 1e-9, f'partition functions, {what}')

    m = len(ts)
    arrange = case['arrange']
    if arrange == 'reorder':
        idx = [i for i in case['perm'] if i < m]
        idx = list(range(len(idx), m))[::-1] + idx
        compare(idx, np.array([ts[i] for i in idx]), 'reordered grid')
    elif arrange == 'repeat':
        idx = [i % m for i in case['pick']]
        compare(idx, np.array([ts[i] for i in idx]), 'grid with repetitions')
    elif arrange == 'split':
        cut = (case['pick'][0] + (m // 3 if m > 20 else 0)) % (m + 1)
        for part in (list(range(cut)), list(range(cut, m))):
            if part:
                compare(part, np.array([ts[i] for i in part]), 'part of the grid')
    elif arrange == 'single':
        for i in range(0, m, 1 + m // 20):
            compare([i], np.array([ts[i]]), 'one temperature alone')
    elif arrange == 'view':
        # the same values in other memory layouts
        wide = np.zeros(2 * m)
        wide[::2] = ts
        compare(list(range(m)), wide[::2], 'strided grid')
        back = np.array(ts[::-1])[::-1]
        compare(list(range(m)), back, 'reversed view')
    if all(float(t).is_integer() for t in ts):
        compare(list(range(m)), np.array([int(t) for t in ts]), 'integer temperatures')
        rec('integer grid')
    d = gen.nmodes(case)
    shape = ('M=1' if m == 1 else 'M=N' if m == n else 'M=D' if m == d else 'M=3' if m == 3 else 'other')
    rec(arrange, shape, f"kinds:{''.join(sorted(case['kinds']))}", 'zero' if 0.0 in ts else 'positive',
        nontrivial=n > 1 and len(set(ts)) > 1)


@st.composite
def cases(draw):
    m = draw(st.sampled_from([1, 2, 3, 3, 4, 5, 6, 8]))
    grid = draw(st.sampled_from(['int', 'float']))
    temp = st.integers(0, 1500).map(float) if grid == 'int' else gen.temp_positive(0.5, 1e4)
    case = draw(gen.system(nmin=1, nmax=5, dmax=6, temps=temp, tiles=(1, 1, 4), grow='n'))
    n, d = gen.size_of(case), gen.nmodes(case)
    want = draw(st.sampled_from([m, n, d or 3]))
    case['T'] = [draw(temp) for _ in range(want)]
    if draw(st.integers(0, 24)) == 0:
        gen.grow_grid(case, draw(st.sampled_from([17, 64, 129, 300, 1030, 2100, 4200])), draw(st.integers(1, 1000)))
    case['arrange'] = draw(st.sampled_from(['reorder', 'repeat', 'split', 'single', 'view']))
    case['perm'] = list(draw(st.permutations(range(max(8, min(20, len(case['T'])))))))
    case['pick'] = draw(st.lists(st.integers(0, 20), min_size=1, max_size=9))
    return case


TESTS = [Test('grid', cases, check, 6000, 120000, rule='two or more isomers and distinct temperatures')]
