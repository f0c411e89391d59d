"""C28: independent subsystems multiply their populations and add their heat capacities."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import average, build, c_tol, close_cols, finite, heat, mixed, p_tol, probability
from ..core import Test

KB = 8.617333262145e-5


def product(a, b):
    """The system of all pairs (isomer of a, isomer of b), a varying slowest."""
    out = dict(a, tile=1)
    pairs = [(i, j) for i in range(gen.size_of(a)) for j in range(gen.size_of(b))]
    if a['E'] is not None:
        out['E'] = [a['E'][i] + b['E'][j] for i, j in pairs]
        out['g'] = [a['g'][i] * b['g'][j] for i, j in pairs]
    if a['F'] is not None:
        out['F'] = [list(a['F'][i]) * a['tile'] + list(b['F'][j]) * b['tile'] for i, j in pairs]
    if a['sig'] is not None and b['sig'] is None:
        out['sig'] = [a['sig'][i] for i, _ in pairs]
        out['I'] = [a['I'][i] for i, _ in pairs]
    elif a['sig'] is not None:
        out['sig'] = [a['sig'][i] * b['sig'][j] for i, j in pairs]
        out['I'] = [[x * y for x, y in zip(a['I'][i], b['I'][j])] for i, j in pairs]
    return out


def check(case, rec):
    a, b = case['a'], case['b']
    ab = product(a, b)
    temp = gen.temperatures(a)
    ts = np.maximum(np.array(a['T'], dtype=float), 1e-6)
    na, nb = gen.size_of(a), gen.size_of(b)
    big = sum(max(map(abs, x['E'])) for x in (a, b)) if a['E'] is not None else 0.0
    extra = 6 * 2.3e-16 * big / (KB * ts)
    sa, sb, sab = build(a), build(b), build(ab)
    pa = np.asarray(finite(probability(sa, temp, na), 'first subsystem'), dtype=np.longdouble)
    pb = np.asarray(finite(probability(sb, temp, nb), 'second subsystem'), dtype=np.longdouble)
    pab = finite(probability(sab, temp, na * nb), 'combined system')
    want = (pa[:, None, :] * pb[None, :, :]).reshape(na * nb, -1)
    tol = p_tol(ab, ts, extra)
    close_cols(pab, want, 3 * tol, 'occupation of pairs of independent isomers')
    ca, cb, cab = (np.asarray(finite(heat(s, temp), 'heat capacity'), dtype=np.longdouble) for s in (sa, sb, sab))
    both = 1.5 if a['sig'] is not None and b['sig'] is not None else 0.0
    close_cols(cab, ca + cb - both, 3 * c_tol(ab, ts, extra), 'heat capacity of independent subsystems')
    fa, fb = np.array((case['fa'] * na)[:na], dtype=float), np.array((case['fb'] * nb)[:nb], dtype=float)
    pair = (fa[:, None] + fb[None, :]).reshape(-1, 1)
    got = average(sab, temp, np.tile(pair, (1, len(ts))))
    parts = np.asarray(average(sa, temp, np.tile(fa[:, None], (1, len(ts))))) + \
        np.asarray(average(sb, temp, np.tile(fb[:, None], (1, len(ts)))))
    close_cols(got, parts, 20 * na * nb * tol, 'average of a sum over independent subsystems')
    rec(f"kinds:{''.join(sorted(a['kinds']))}", 'rotation of both' if both else 'one rotor',
        nontrivial=bool(mixed(pa) and mixed(pb)))


@st.composite
def cases(draw):
    a = draw(gen.system(nmin=draw(st.sampled_from([1, 2, 2])), nmax=4, dmax=4, zero=True, tmin=2, tmax=1e4, mmax=3, tiles=(1, 1, 3, 50), grow='nt'))
    if draw(st.booleans()) and a['T'] == [0.0]:
        a['T'] = [25.0]
    rotors = 'R' in a['kinds'] and min(min(r) for r in a['I']) > 0.1 and draw(st.booleans()) or a['kinds'] == 'R'
    if rotors and min(min(r) for r in a['I']) <= 0.1:
        a['I'] = [[1.5, 20.0, 21.0] for _ in a['I']]
    n = draw(st.sampled_from([1, 2, 2, 3, 4]))
    b = dict(a, E=None, g=None, F=None, sig=None, I=None, tile=1)
    b['kinds'] = ''.join(k for k in a['kinds'] if k != 'R' or rotors)
    if a['E'] is not None:
        b['E'] = [e * a['unit'] for e in draw(gen.energies(n))]
        if draw(st.booleans()):
            # levels within a few kT
            kt = KB * max(a['T'] + [1.0 * a['unit']])
            for x in (a, b):
                x['E'] = [kt * draw(st.integers(0, 80)) / 16 for _ in x['E']]
        b['g'] = [draw(st.integers(1, 9)) for _ in range(n)]
        # rounding of the summed energies must not matter: multiples of 2^-20 eV (of 2^-36 eV at low temperatures)
        grain = 2.0**36 if a['unit'] < 1 else 2.0**20
        for x in (a, b):
            x['E'] = [round(e * grain) / grain for e in x['E']]
    if a['F'] is not None:
        b['F'] = [[x * a['unit'] for x in r] for r in draw(gen.freq_matrix(n, draw(st.integers(1, 4))))]
        b['tile'] = draw(st.sampled_from([1, 1, 3, 50]))
    if rotors:
        b['sig'] = [draw(st.sampled_from([1, 2, 3, 6, 12])) for _ in range(n)]
        b['I'] = []
        for _ in range(n):
            size = draw(st.integers(20, 9999)) / 100
            b['I'].append([size, size * draw(st.integers(10, 20)) / 10, size * draw(st.integers(20, 50)) / 10])
    if a['F'] is not None and draw(st.booleans()):
        # isomers whose modes are alike, so that zero-point energies do not decide everything
        for x in (a, b):
            x['F'] = [[f * (1 + 0.01 * k) for f in x['F'][0]] for k in range(len(x['F']))]
    if 'Q' in a['kinds'] and 0.0 in a['T']:
        a['T'] = [t or 2.0 for t in a['T']]
    a['dt'] = b['dt'] = 'f' if a['dt'] == 'i' else a['dt']
    b['T'] = a['T']
    values = st.lists(st.integers(-9, 9).map(float), min_size=4, max_size=4)
    return {'a': a, 'b': b, 'fa': draw(values), 'fb': draw(values)}


TESTS = [Test('pairs', cases, check, 4000, 100000, rule='both subsystems have isomers sharing population')]
