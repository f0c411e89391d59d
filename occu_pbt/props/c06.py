"""C06: each contribution and its derivatives are mutually consistent."""
import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..common import finite, quiet, table
from ..core import Test, Violation, sut


def check(case, rec):
    kind = case['kinds']
    n = gen.size_of(case)
    temp = gen.temperatures(case)
    arr = gen.arrays(case)
    with sut(f'contribution {kind}'), quiet():
        pf = gen.make_pf(kind, arr)
        z, w, v = pf.calc_part_func(temp), pf.calc_part_func_w(temp), pf.calc_part_func_v(temp)
    shape = (n, len(temp))
    z = table(z, shape, f'partition function {kind}')
    w = finite(table(w, shape, f'first derivative {kind}'), f'first derivative {kind}')
    v = finite(table(v, shape, f'second derivative {kind}'), f'second derivative {kind}')
    if kind in 'ES':    # Boltzmann factors relative to the lowest isomer: representable whatever the absolute energies
        finite(z, f'partition function {kind}')
    ref = gen.reference(case)
    compared = 0
    for j in gen.columns(case):
        t = case['T'][j]
        with mp.workdps(40):
            logs = ref.log_weights(model.beta_of(t))
            errs = model.error_logs(ref, t)
        zj = [model.mpf(x) for x in z[:, j]]
        if kind in 'ES':
            for a in range(n):
                if logs[a] > max(logs) - 600 and not zj[a] > 0:
                    raise Violation(f'{kind} at {t} K: partition function of isomer {a + 1} is {z[a, j]!r}, although its'
                                    f' weight is exp({float(logs[a] - max(logs))!r}) of the largest one')
        for a in range(n):
            if not zj[a] >= 0:
                raise Violation(f'{kind} at {t} K: partition function {z[a, j]!r}')
            for b in range(a):
                # only where both are ordinary numbers in double precision
                if min(zj[a], zj[b]) > 1e-280 and max(zj[a], zj[b]) < 1e280:
                    with mp.workdps(40):
                        got = mp.log(zj[a] / zj[b])
                        want = logs[a] - logs[b]
                        tol = errs[a] + errs[b] + mp.mpf('1e-11')
                    compared += 1
                    if abs(got - want) > tol:
                        raise Violation(f'{kind} at {t} K: ratio of isomers {a + 1} and {b + 1} is exp({float(got)!r}),'
                                        f' documented exp({float(want)!r})')
        wr, vr = model.derivatives(ref, t)
        # the electronic energy has a free zero: compare against the lowest isomer there
        if kind in 'ES':
            k = int(np.argmin(case['E']))
            off = model.mpf(w[k, j]) - wr[k]
        else:
            off = 0
        for a in range(n):
            scale = abs(wr[a]) + abs(off)
            if abs(model.mpf(w[a, j]) - off - wr[a]) > mp.mpf('1e-9') + mp.mpf('2e-9') * scale:
                raise Violation(f'{kind} at {t} K, isomer {a + 1}: first derivative {w[a, j]!r}, expected {float(wr[a])!r}')
            if abs(model.mpf(v[a, j]) - vr[a]) > mp.mpf('1e-8') + mp.mpf('2e-8') * abs(vr[a]):
                raise Violation(f'{kind} at {t} K, isomer {a + 1}: second derivative {v[a, j]!r}, expected {float(vr[a])!r}')
    rec(f'kind:{kind}', 'ratio compared' if compared else 'no ratio', nontrivial=compared > 0)


def cases():
    return gen.system(kinds_=st.sampled_from(['E', 'S', 'S', 'C', 'C', 'Q', 'Q', 'Q', 'R', 'R']), nmin=1, nmax=4,
                      mmax=3, tiles=(1, 1, 1, 4), grow='nt', wide=True)


TESTS = [Test('derivatives', cases, check, 2400, 60000,
              rule='the ratio of at least two isomers was compared')]
