"""C41: how the same values are stored carries no meaning."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import average, build, c_tol, close_cols, finite, heat, mixed, p_tol, probability, quiet, spread, table
from ..core import Test, require, sut

INTEGERS = ['i8', 'i4', 'i2', 'i1', 'u1', 'u2', 'u4', 'u8', '>i4', '>i2']
FLOATS = ['f8', '>f8', 'g', 'f4', '>f4']
LAYOUTS = ['C', 'F', 'reversed', 'strided', 'readonly', 'unaligned', 'view', 'subclass', 'columns']


class Labelled(np.ndarray):
    """What a program may have made of an array."""


def stored(arr, rep):
    """The same values under another type and memory layout; the type falls back to float64 if it can not hold them."""
    dtype, how = rep
    with np.errstate(all='ignore'):
        out = arr.astype(dtype)
    if not np.array_equal(out.astype(np.longdouble), arr):
        out = arr.copy()
    if how == 'unaligned':
        raw = bytearray(out.nbytes + 1)
        view = np.frombuffer(raw, dtype=np.uint8)[1:].view(out.dtype).reshape(out.shape)
        view[...] = out
        return view
    if how == 'view':           # part of a larger table
        big = np.full([k + 3 for k in out.shape], 9, dtype=out.dtype)
        view = big[tuple(slice(1, k + 1) for k in out.shape)]
        view[...] = out
        return view
    if how == 'subclass':
        return out.view(Labelled)
    if how == 'columns':        # read column by column
        return np.stack(list(out.T)).T if out.ndim == 2 else out[:, None].copy()[:, 0]
    return gen.laid_out(out, how)


def single(arr):
    return arr.dtype.kind == 'f' and arr.dtype.itemsize == 4


def results(sa, temp, warm, obs, n, what):
    p = finite(probability(sa, temp, n, what + ': occupation probability'), what + ': occupation probability')
    c = finite(heat(sa, temp, what + ': heat capacity'), what + ': heat capacity')
    a = finite(average(sa, temp, obs, what + ': ensemble average'), what + ': ensemble average')
    out = [p, c, a]
    for method in ('w', 'v'):
        with sut(what), quiet():
            out.append(table(sa.combine_contributions(warm, np.sum, 'calc_part_func_' + method), (n, len(temp)), what))
    with sut(what), quiet(), np.errstate(all='ignore'):
        out.append(table(sa.calc_partition_functions(warm), (n, len(temp)), what))
    return [np.asarray(x, dtype=np.longdouble) for x in out]


def check(case, rec):
    n, reps = gen.size_of(case), case['reps']
    plain = {k: np.array(v, dtype=float) for k, v in gen.arrays(dict(case, dt='f', layout='C')).items()}
    temp, obs = np.array(case['T'], dtype=float), np.array(case['obs'], dtype=float)
    arr = {k: stored(v, reps[k]) for k, v in plain.items()}
    warm = np.maximum(temp, 5.0)        # derivatives and partition functions have no limit at 0 K
    t2, o2 = stored(temp, reps['T']), stored(obs, reps['obs'])
    kept = {k: v.tobytes() for k, v in arr.items()}, t2.tobytes(), o2.tobytes()
    ref = results(build(case, plain), temp, warm, obs, n, 'plain arrays')
    got = results(build(case, arr), t2, stored(warm, reps['T']), o2, n, f'arrays as {reps}')
    require(kept == ({k: v.tobytes() for k, v in arr.items()}, t2.tobytes(), o2.tobytes()), 'the arrays were changed')
    rough = any(single(v) for v in arr.values()) or single(t2) or single(o2)
    s, d = spread(case, temp), gen.nmodes(case)
    extra = 2e-6 * (1 + d) * (1 + s) if rough else 0.0
    big = 1 + max(1.0, float(np.abs(obs).max()))
    used = {k: f'{v.dtype}' for k, v in arr.items()}
    close_cols(got[0], ref[0], p_tol(case, temp) + extra, f'occupation probability from arrays as {used}')
    close_cols(got[1], ref[1], c_tol(case, temp) + extra * (20 + d) * (1 + s), f'heat capacity from arrays as {used}')
    close_cols(got[2], ref[2], big * (p_tol(case, temp) + extra), f'average of an observable as {o2.dtype}')
    for k, what in ((3, 'first derivative'), (4, 'second derivative')):
        scale = 1 + np.abs(ref[k]).max(axis=0).astype(float)
        close_cols(got[k], ref[k], (1e-9 + extra) * scale, f'{what} from arrays as {used}')
    if not rough:
        with np.errstate(all='ignore'):
            ok = np.isfinite(ref[5]) & (ref[5] > 1e-250) & (ref[5] < 1e250)
        a, b = np.where(ok, got[5], 1), np.where(ok, ref[5], 1)
        close_cols(a / b, np.ones_like(b), 1e-9 * (1 + d) + 1e-13 * s, f'partition function from arrays as {used}')
    others = sum(str(v.dtype) != 'float64' or reps[k][1] != 'C' for k, v in list(arr.items()) + [('T', t2), ('obs', o2)])
    rec('single' if rough else 'exact', *{str(v.dtype) for v in [*arr.values(), t2, o2]}, nontrivial=others > 0 and mixed(ref[0]))


@st.composite
def cases(draw):
    kk = draw(gen.kinds())
    n = draw(st.integers(1, 5))
    case = {'kinds': kk, 'E': None, 'g': None, 'F': None, 'sig': None, 'I': None, 'tile': 1, 'unit': 1.0}
    if 'E' in kk or 'S' in kk:
        unit = draw(st.sampled_from([1, 64, 256]))      # whole, or exact in single precision
        base = draw(st.sampled_from([0, 0, 3, 60]))
        case['E'] = [base + draw(st.integers(0, 60 if unit > 1 else 2)) / unit for _ in range(n)]
        if draw(st.booleans()) and base:
            case['E'] = [e - 2 * base for e in case['E']]
        case['g'] = [draw(st.one_of(st.integers(1, 9), st.integers(1, 120))) for _ in range(n)]
    if 'C' in kk or 'Q' in kk:
        d = draw(st.integers(1, 6))
        unit = draw(st.sampled_from([1, 1, 8]))
        case['F'] = [[draw(st.integers(1, 120)) / unit for _ in range(d)] for _ in range(n)]
    if 'R' in kk:
        case['sig'] = [draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8, 10, 12, 24, 60, 120])) for _ in range(n)]
        case['I'] = [sorted(draw(st.integers(1, 120)) for _ in range(3)) for _ in range(n)]
    top = draw(st.sampled_from([120, 250, 2000]))
    case['T'] = draw(st.lists(st.one_of(st.integers(40, top), st.integers(5, top)).map(float), min_size=1, max_size=5))
    if draw(st.integers(0, 5)) == 0:
        case['T'].append(0.0)
    column = draw(st.booleans())
    top = draw(st.sampled_from([100, 100, 30000]))
    case['obs'] = [[draw(st.integers(-top, top)) for _ in range(1 if column else len(case['T']))] for _ in range(n)]
    dtype = st.one_of(st.sampled_from(INTEGERS), st.sampled_from(FLOATS[:3]), st.just('f8'))
    if draw(st.integers(0, 3)) == 0:
        dtype = st.sampled_from(INTEGERS + FLOATS)
    case['reps'] = {k: [draw(dtype), draw(st.sampled_from(LAYOUTS))] for k in ('E', 'g', 'F', 'sig', 'I', 'T', 'obs')}
    return case


TESTS = [
    Test('stored', cases, check, 5000, 100000, rule='some array is not a plain one and isomers share population'),
]
