"""Strategies for isomer systems.  Cases are JSON-able dictionaries."""
import numpy as np
from hypothesis import strategies as st

from .model import System

# contributions: E electronic, S electronic with spin, C classical, Q quantum, R rotational


def kinds(electronic=None, vibrational=None, rotational=None):
    el = st.sampled_from(['', 'E', 'S', 'S']) if electronic is None else st.just(electronic)
    vi = st.sampled_from(['', 'C', 'Q', 'Q']) if vibrational is None else st.just(vibrational)
    ro = st.sampled_from(['', 'R']) if rotational is None else st.just(rotational)

    def order(parts):
        e, v, r, k = parts
        chosen = [x for x in (e, v, r) if x] or ['S']
        perm = [[0, 1, 2], [2, 1, 0], [1, 2, 0], [0, 2, 1], [2, 0, 1], [1, 0, 2]][k]
        return ''.join(chosen[i] for i in perm if i < len(chosen))
    return st.tuples(el, vi, ro, st.integers(0, 5)).map(order)


@st.composite
def energies(draw, n):
    style = draw(st.sampled_from(['gaps', 'gaps', 'gaps', 'small', 'float', 'int']))
    if style == 'float':
        return [draw(st.floats(-20, 20, allow_subnormal=False)) for _ in range(n)]
    if style == 'int':
        return [draw(st.integers(-30, 5)) for _ in range(n)]
    base = draw(st.sampled_from([0.0, 0.0, 0.0, -4433.12, -76.5, 1250.25, -27211.386, -519422.75]))
    scale = draw(st.sampled_from([1e-2, 1e-3, 1e-3, 1e-4] if style == 'gaps' else [1e-5, 1e-6]))
    top = draw(st.sampled_from([3, 100, 1000]))
    return [base + scale * draw(st.integers(0, top)) for _ in range(n)]


def frequency():
    return st.one_of(st.integers(1, 200).map(lambda k: k / 10), st.integers(10, 2500).map(lambda k: k / 20),
                     st.floats(0.05, 130.0))


def wide_frequency():
    return st.one_of(frequency(), st.integers(-40, 30).map(lambda k: float(round(10.0 ** (k / 10), 8))))


@st.composite
def freq_matrix(draw, n, d, wide=False):
    freq = wide_frequency() if wide else frequency()
    if draw(st.integers(0, 4)) == 0:      # isomers sharing (nearly) the same modes
        row = [draw(freq) for _ in range(d)]
        out = []
        for _ in range(n):
            r = list(row)
            if draw(st.booleans()):
                r[draw(st.integers(0, d - 1))] = draw(freq)
            out.append(r)
        return out
    return [[draw(freq) for _ in range(d)] for _ in range(n)]


def multiplicity():
    return st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(1, 9), st.sampled_from([10, 17, 33, 101, 400]))


@st.composite
def moments_matrix(draw, n, slender=False):
    linear = draw(st.integers(0, 5)) == 0
    out = []
    for _ in range(n):
        if linear:
            i = draw(st.integers(10, 99999)) / 100
            out.append([draw(st.sampled_from([0.0, 0.0, 3.1e-15, -2.2e-15, 1e-17])), i, i])
        else:
            m = sorted(draw(st.integers(20, 99999)) / 100 for _ in range(3))
            if slender and draw(st.integers(0, 4)) == 0:      # nearly linear, but not linear
                m[0] = m[2] * draw(st.sampled_from([4e-6, 1e-5, 3e-5, 1e-4, 1e-3]))
            out.append(m)
    return out


def temp_positive(low=0.05, high=1e5):
    lo = max(1, int(np.ceil(low)))
    return st.one_of(st.integers(lo, 1000).map(float), st.integers(lo, 60).map(float),
                     st.integers(int(low * 100) or 1, 5000).map(lambda k: max(low, k / 100)),
                     st.integers(0, 400).map(lambda k: float(round(low * (high / low)**(k / 400), 6))),
                     st.floats(low, high))


@st.composite
def system(draw, nmax=6, dmax=10, nmin=1, kinds_=None, tmin=0.05, tmax=1e5, mmax=4, zero=False,
           tiles=(1, 1, 1, 1, 1, 1, 4, 40), temps=None, grow='', scales=True, wide=False):
    """scales: let energies, frequencies and temperatures be in another range of magnitude now and then.
    wide: let the frequencies of an isomer differ by orders of magnitude, moments of inertia as well, and
    temperatures be as low as a few microkelvin.
    grow: 'n', 't' or 'nt' to let the list of isomers or the temperature grid be long now and then."""
    kk = draw(kinds_ if kinds_ is not None else kinds())
    n = draw(st.integers(nmin, nmax))
    case = {'kinds': kk, 'E': None, 'g': None, 'F': None, 'sig': None, 'I': None, 'tile': 1, 'unit': 1.0}
    if 'E' in kk or 'S' in kk:
        case['E'] = draw(energies(n))
        case['g'] = [draw(multiplicity()) for _ in range(n)]
    if 'C' in kk or 'Q' in kk:
        d = draw(st.integers(1, dmax))
        case['F'] = draw(freq_matrix(n, d, wide))
        case['tile'] = draw(st.sampled_from(tiles))
    if 'R' in kk:
        case['sig'] = [draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8, 10, 12, 24, 60, 120])) for _ in range(n)]
        case['I'] = draw(moments_matrix(n, wide))
    temp = temps if temps is not None else temp_positive(tmin, tmax)
    ts = draw(st.lists(temp, min_size=1, max_size=mmax))
    if zero and draw(st.booleans()):
        ts.insert(draw(st.integers(0, len(ts))), 0.0)
    case['T'] = ts
    if scales and draw(st.integers(0, 7)) == 0:
        rescale(case, draw(st.sampled_from(([-7, -6, -5] if wide else []) + [-4, -3, -2, -1, 1, 2, 3])), 2e-6 if wide else 1e-3)
    case['dt'] = draw(st.sampled_from(['f', 'f', 'f', 'i', 'l']))
    case['layout'] = draw(st.sampled_from(['C', 'C', 'C', 'F', 'reversed', 'strided', 'readonly']))
    if grow:
        size = draw(st.sampled_from([0] * 20 + ['n', 't', 'b']))
        if size and size in grow + 'b':
            salt = draw(st.integers(1, 1000))
            case['tile'] = min(case['tile'], 4)
            if 'n' in grow and size != 't':
                grow_isomers(case, draw(st.sampled_from([9, 12, 17, 33, 65, 130, 270] if size == 'n' else [10, 40])), salt)
            if 't' in grow and size != 'n':
                grow_grid(case, draw(st.sampled_from([13, 33, 65, 129, 300, 1030, 2100, 4200] if size == 't' else [10, 40])), salt)
    return case


@st.composite
def transition(draw):
    """Two kinds of isomers, one with the lower energy, the other with softer modes: around some temperature the
    population changes over within a few kelvins and the heat capacity has a sharp peak."""
    kk = ''.join(draw(st.permutations([draw(st.sampled_from('ES')), draw(st.sampled_from('CCQ'))] + draw(st.sampled_from([[], ['R']])))))
    n, d = draw(st.sampled_from([2, 2, 2, 3, 4])), draw(st.integers(1, 3))
    tile = draw(st.sampled_from([10, 30, 100, 200] if 'C' in kk else [10, 30, 60]))
    ratio = draw(st.integers(105, 400)) / 100
    stiff = [draw(st.integers(10, 200)) / 10 for _ in range(d)]
    t = float(draw(st.integers(100, 1500)))
    case = {'kinds': kk, 'tile': tile, 'unit': 1.0, 'sig': None, 'I': None, 'dt': draw(st.sampled_from(['f', 'f', 'l'])), 'layout': 'C'}
    soft = [a % 2 for a in range(n)]
    case['F'] = [[x / ratio if s else x for x in stiff] for s in soft]
    kt = 8.617333262145e-5 * t
    if 'C' in kk:
        gap = d * tile * float(np.log(ratio)) * kt
    else:       # equal weights at t
        def lnz(row):
            y = np.array(row) * 4.135667696e-3 / kt
            return -tile * float(np.sum(y / 2 + np.log(-np.expm1(-y))))
        gap = (lnz(case['F'][1]) - lnz(case['F'][0])) * kt
    base = draw(st.sampled_from([0.0, -76.5]))
    case['E'] = [base + (gap if s else 0.0) + draw(st.integers(0, 20)) * 1e-3 for s in soft]
    case['g'] = [draw(multiplicity()) for _ in range(n)]
    if 'R' in kk:
        case['sig'] = [draw(st.sampled_from([1, 2, 3, 12])) for _ in range(n)]
        case['I'] = draw(moments_matrix(n))
    width = kt / max(gap, kt) * t      # of the changeover
    case['T'] = [max(1.0, t + width * draw(st.integers(-300, 300)) / 50) for _ in range(draw(st.integers(1, 3)))]
    return case


def rescale(case, power, floor=1e-3):
    """The same system with energies, frequencies and temperatures multiplied by a power of ten."""
    low = min((t for t in case['T'] if t > 0), default=1.0)
    while power < 0 and low * 10.0**power < floor:
        power += 1
    f = case['unit'] = 10.0**power
    case['T'] = [t * f for t in case['T']]
    if case['E'] is not None:
        case['E'] = [e * f for e in case['E']]
    if case['F'] is not None:
        case['F'] = [[x * f for x in r] for r in case['F']]


def grow_isomers(case, count, salt):
    """Continue the lists of isomer properties, deterministically, with variations of the first ones."""
    n = size_of(case)
    for k in range(n, count):
        a, r = k % n, (k * salt) % 997
        if case['E'] is not None:
            case['E'].append(case['E'][a] + (r if isinstance(case['E'][a], int) else r * 1e-4))
            case['g'].append(1 + (case['g'][a] + r) % 9)
        if case['F'] is not None:
            row = list(case['F'][a])
            row[k % len(row)] *= 1 + r % 50 / 100
            case['F'].append(row)
        if case['sig'] is not None:
            case['sig'].append([1, 2, 3, 4, 6, 12, 24, 60][r % 8])
            case['I'].append([x * (1 + r % 70 / 100) for x in case['I'][a]])


def grow_grid(case, count, salt):
    """Continue the temperature grid, not in ascending order; zeros stay zero, integers integers."""
    base = list(case['T'])
    for k in range(len(base), count):
        t, r = base[k % len(base)], (k * salt) % 101
        case['T'].append(t if t == 0 else t + r if float(t).is_integer() else t * (1 + r / 100))


def reference(case):
    return System(case['kinds'], case['E'], case['g'], case['F'], case['sig'], case['I'], case['tile'])


# -- building the objects under test ------------------------------------------------------

def as_array(values, dt):
    """dt: f float64; i integers where all values are integral; l extended precision."""
    arr = np.array(values, dtype=float)
    if dt == 'i' and np.all(np.isfinite(arr)) and np.all(arr == np.round(arr)) and np.all(np.abs(arr) < 1e15):
        return arr.astype(int)
    if dt == 'l':
        return arr.astype(np.longdouble)
    return arr


def laid_out(arr, how):
    """The same values in another memory layout, or not writeable."""
    if how == 'F':
        return np.asfortranarray(arr)
    if how == 'reversed':
        return arr[::-1].copy()[::-1]
    if how == 'strided':
        big = np.full([2 * k for k in arr.shape], 7, dtype=arr.dtype)
        view = big[tuple(slice(None, None, 2) for _ in arr.shape)]
        view[...] = arr
        return view
    if how == 'readonly':
        arr = arr.copy()
        arr.flags.writeable = False
    return arr


def arrays(case):
    dt = case.get('dt', 'f')
    out = {}
    if case['E'] is not None:
        out['E'] = as_array(case['E'], 'f' if dt == 'l' else dt)
        out['g'] = as_array(case['g'], 'f' if dt == 'l' else dt)
    if case['F'] is not None:
        out['F'] = np.tile(as_array(case['F'], dt), (1, case['tile']))
    if case['sig'] is not None:
        out['sig'] = as_array(case['sig'], 'f' if dt == 'l' else dt)
        out['I'] = as_array(case['I'], 'f')
    return {k: laid_out(v, case.get('layout')) for k, v in out.items()}


def temperatures(case, ts=None):
    return laid_out(as_array(case['T'] if ts is None else ts, 'i' if case.get('dt') == 'i' else 'f'), case.get('layout'))


def make_pf(kind, arr):
    from occuprob import partitionfunctions as pf
    if kind == 'E':
        return pf.ElectronicPF(arr['E'], np.ones(len(arr['E'])))
    if kind == 'S':
        return pf.ElectronicPF(arr['E'], arr['g'])
    if kind == 'C':
        return pf.ClassicalHarmonicPF(arr['F'])
    if kind == 'Q':
        return pf.QuantumHarmonicPF(arr['F'])
    if kind == 'R':
        return pf.RotationalPF(arr['sig'], arr['I'])
    raise KeyError(kind)


def build(case, arr=None):
    from occuprob.superpositions import SuperpositionApproximation
    arr = arrays(case) if arr is None else arr
    sa = SuperpositionApproximation()
    sa.add_partition_functions([make_pf(k, arr) for k in case['kinds']])
    return sa


def size_of(case):
    for k in ('E', 'F', 'sig'):
        if case[k] is not None:
            return len(case[k])
    raise KeyError


def nmodes(case):
    return 0 if case['F'] is None else len(case['F'][0]) * case['tile']


def columns(case, budget=300):
    """The temperatures at which a large case is compared with the slow reference."""
    m, cost = len(case['T']), size_of(case) * max(1, len(case['F'][0]) if case['F'] else 1)
    keep = max(2, budget // cost)
    if m <= keep:
        return range(m)
    return sorted({round(k * (m - 1) / (keep - 1)) for k in range(keep)})
