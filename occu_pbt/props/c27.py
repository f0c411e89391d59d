"""C27: populations, energies and heat capacity form one thermodynamic system."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import average, build, finite, heat, mixed, probability, quiet, spread, table
from ..core import Test, require, sut

STEP = 1e-3


def derivatives(sa, temp, n):
    """(reduced derivatives w of every isomer, their average) at each temperature."""
    with sut('combined derivatives'), quiet():
        w = sa.combine_contributions(temp, np.sum, 'calc_part_func_w')
    w = finite(table(w, (n, len(temp)), 'combined derivatives'), 'combined derivatives')
    return np.asarray(w, dtype=np.longdouble), np.asarray(finite(average(sa, temp, np.asarray(w)), 'average'), dtype=np.longdouble)


def slope(values):
    """d/d(ln beta) from values at beta*exp(-2h), exp(-h), exp(h), exp(2h)."""
    a, b, c, d = values
    return (a - 8 * b + 8 * c - d) / (12 * STEP)


def check(case, rec):
    n = gen.size_of(case)
    sa = build(case)
    ts = np.array(case['T'], dtype=float)
    w, mean = derivatives(sa, ts, n)
    p = np.asarray(finite(probability(sa, ts, n), 'occupation probability'), dtype=np.longdouble)
    c = np.asarray(finite(heat(sa, ts), 'heat capacity'), dtype=np.longdouble)
    near = [ts * np.exp(-k * STEP) for k in (-2, -1, 1, 2)]
    p_slope = slope([np.asarray(probability(sa, t, n), dtype=np.longdouble) for t in near])
    # beta*exp(k*STEP) is temperature*exp(-k*STEP): the list above runs from low to high beta
    mean_slope = slope([derivatives(sa, t, n)[1] for t in near])
    modes = gen.nmodes(case)
    size = 1 + spread(case, ts) + modes
    tol = 1e-6 + 1e-10 * size
    flow = p * (w - mean)
    require(bool(np.all(np.abs(p_slope - flow) <= tol)),
            'at %s K populations change by %s per unit of ln(beta), their energies imply %s', ts, p_slope, flow)
    want = mean_slope - mean
    require(bool(np.all(np.abs(c - want) <= 1e-6 * (1 + modes) + 1e-10 * size)),
            'at %s K the heat capacity is %s, the mean energy changes by %s per kT', ts, c, want)
    require(bool(np.all(c >= -1e-9 * (1 + modes))), 'negative heat capacity %s', c)
    rec(f"kinds:{''.join(sorted(case['kinds']))}", 'mixed' if mixed(p, 1e-3) else 'pure',
        nontrivial=n > 1 and mixed(p, 1e-3))


def cases():
    return gen.system(nmin=1, nmax=5, dmax=5, tmin=20, tmax=5000, mmax=3, tiles=(1, 1, 1, 5), grow='nt')


def check_order(case, rec):
    """Without zero-point motion the higher of two isomers gains on the lower one as temperature grows."""
    n = gen.size_of(case)
    ts = sorted(set(case['T']))
    temp = np.array(ts, dtype=float)
    sa = build(case)
    p = np.asarray(finite(probability(sa, temp, n), 'occupation probability'), dtype=np.longdouble)
    _, mean = derivatives(sa, temp, n)
    energy = -mean[0] * temp * np.longdouble(8.617333262145e-5)
    e = np.array(case['E'], dtype=float)
    slack = 1e-9 * (np.abs(energy).max() + e.max() - e.min() + 8.617e-5 * temp.max() * (1 + gen.nmodes(case))) + 1e-15
    require(bool(np.all(np.diff(energy) >= -slack)), 'mean energy %s falls with temperature %s', energy, ts)
    gained = 0
    for a in range(n):
        for b in range(n):
            if not e[a] > e[b] + 1e-9:
                continue
            for j in range(len(ts) - 1):
                lo, hi = (p[a, j], p[b, j]), (p[a, j + 1], p[b, j + 1])
                require(bool(hi[0] * lo[1] >= lo[0] * hi[1] * (1 - 1e-9 * (1 + spread(case, [ts[j]])[0])) - 1e-300),
                        'from %s to %s K isomer %d (%s eV) loses population to isomer %d (%s eV)', ts[j], ts[j + 1],
                        a + 1, e[a], b + 1, e[b])
                gained += bool(hi[0] * lo[1] > lo[0] * hi[1] * 1.001)
    if 'C' not in case['kinds'] and 'R' not in case['kinds']:
        low = e == e.min()
        ground = p[low].sum(axis=0)
        require(bool(np.all(np.diff(ground) <= 1e-9)), 'population of the lowest isomers grows: %s at %s K', ground, ts)
    rec(f"kinds:{''.join(sorted(case['kinds']))}", nontrivial=gained > 0)


def check_changeover(case, rec):
    """The same relations where populations change over sharply: the step follows the difference of the energies."""
    n, modes = gen.size_of(case), gen.nmodes(case)
    sa = build(case)
    seen = False
    for t in case['T']:
        temp = np.array([t])
        w, mean = derivatives(sa, temp, n)
        p = np.asarray(finite(probability(sa, temp, n), 'occupation probability'), dtype=np.longdouble)
        c = float(finite(heat(sa, temp), 'heat capacity')[0, 0])
        r = float(w.max() - w.min())
        h = 0.01 / (10 + r)
        near = t * np.exp(-h * np.array([-2.0, -1.0, 1.0, 2.0]))
        beta = np.log(np.longdouble(t) / near.astype(np.longdouble))
        ps = np.asarray(probability(sa, near, n), dtype=np.longdouble)
        ms = derivatives(sa, near, n)[1][0]
        rise = [float(((y[..., 0] - 8 * y[..., 1] + 8 * y[..., 2] - y[..., 3]) / ((beta[3] - beta[0]) * 3))[k])
                for y, k in [(ps, a) for a in range(n)]]
        m_rise = float((ms[0] - 8 * ms[1] + 8 * ms[2] - ms[3]) / ((beta[3] - beta[0]) * 3))
        flow = (p * (w - mean))[:, 0].astype(float)
        require(bool(np.all(np.abs(np.array(rise) - flow) <= 1e-5 * (1 + r))),
                'at %s K populations change by %s per unit of ln(beta), their energies imply %s', t, rise, flow)
        require(abs(c - (m_rise - float(mean[0, 0]))) <= 1e-5 * (1 + r)**2 + 1e-6 * modes,
                'at %s K the heat capacity is %s, the mean energy changes by %s per kT', t, c, m_rise - float(mean[0, 0]))
        require(c >= -1e-9 * (1 + modes), 'negative heat capacity %s', c)
        seen |= mixed(p, 1e-3) and r > 10
    rec(f"kinds:{''.join(sorted(case['kinds']))}", nontrivial=seen)


@st.composite
def ordered(draw):
    kk = gen.kinds(electronic=draw(st.sampled_from('ESS')), vibrational=draw(st.sampled_from(['', 'C'])))
    return draw(gen.system(kinds_=kk, nmin=2, nmax=5, dmax=5, tmin=1, tmax=1e4, mmax=5, tiles=(1, 1, 4)))


TESTS = [
    Test('derivatives', cases, check, 2400, 60000, rule='two or more isomers, one with probability within 1e-3..1-1e-3'),
    Test('changeover', gen.transition, check_changeover, 2400, 60000, rule='energies of populated isomers differ by more than ten kT'),
    Test('order', ordered, check_order, 2400, 60000, rule='an isomer gains on a lower one by more than 0.1 %'),
]
