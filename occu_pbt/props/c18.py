"""C18: the command line computes what the file describes."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import clirun, cligen, gen, model, molgen
from ..common import c_tol, close, close_cols, p_tol
from ..core import Test, Violation, require
from .c04 import equipartition, ground


def compare(case, p, c, rot):
    ts = p[:, 0]
    require(np.array_equal(c[:, 0], ts), 'the two tables list different temperatures')
    n = gen.size_of(case)
    require(p.shape[1] == n + 1, 'probability table has %s columns for %s isomers', p.shape[1], n)
    require(c.shape[1] == 2, 'heat-capacity table has %s columns', c.shape[1])
    require(bool(np.all(np.isfinite(p))) and bool(np.all(np.isfinite(c))), 'tables hold non-finite numbers')
    pos = ts > 0
    slack = 1e-7 if rot else 0.0     # moments are recomputed from the coordinates
    if np.any(pos):
        fp, fc = model.fast(gen.reference(case), ts[pos])
        tp, tc = p_tol(case, ts[pos], slack), c_tol(case, ts[pos], slack)
        # physical constants are known to 2.3e-10
        sp = np.minimum(1e-9 * np.minimum(rel_spread(case, ts[pos]), 100.0), 1)
        close_cols(p[pos, 1:].T, fp, tp + sp, 'probability table against the file')
        close_cols(c[pos, 1:].T, fc[None, :], tc + sp * 100 + 1e-8 * np.abs(fc).astype(float),
                   'heat-capacity table against the file')
        idx = np.where(pos)[0]
        for i in {int(idx[0]), int(idx[len(idx) // 2]), int(idx[-1])}:
            want, lo, hi = model.probabilities(gen.reference(case), float(ts[i]))
            for a in range(n):
                got = model.mpf(p[i, 1 + a])
                if not lo[a] * (1 - 1e-11) - slack - 1e-200 <= got <= hi[a] * (1 + 1e-11) + slack + 1e-200:
                    raise Violation(f'isomer {a + 1} at {ts[i]} K: {p[i, 1 + a]!r} in the table, the file gives {float(want[a])!r}')
            want, tol = model.heat_capacity(gen.reference(case), float(ts[i]))
            if abs(model.mpf(c[i, 1]) - want) > tol + 100 * slack:
                raise Violation(f'heat capacity at {ts[i]} K: {c[i, 1]!r} in the table, the file gives {float(want)!r}')
    if np.any(ts == 0):
        occ, gap, want = ground(case)
        if gap > 1e-7:
            i = int(np.where(ts == 0)[0][0])
            close(p[i, 1:], want, 0, 1e-6, 'occupation at 0 K in the table')
            close(c[i, 1], equipartition(case), 0, 1e-5, 'heat capacity at 0 K in the table')
    return n > 1 and bool(np.any((p[:, 1:] > 1e-6) & (p[:, 1:] < 1 - 1e-6)))


def rel_spread(case, ts):
    from ..common import spread
    return spread(case, ts)


def check(case, rec):
    frames, kinds = case['frames'], case['kinds']
    with clirun.workdir() as wd:
        cligen.write(wd, frames)
        clirun.run(case['args'], wd).ok()
        p, c = cligen.tables(os.path.join(wd, 'in'))
        sysc = cligen.system_case(frames, kinds)
        mixed = compare(sysc, p, c, 'R' in kinds)
        if case['again']:
            with clirun.workdir() as wd2:
                cligen.write(wd2, frames)
                clirun.run(case['again'], wd2).ok(f'{case["again"]}')
                p2, c2 = cligen.tables(os.path.join(wd2, 'in'))
            close(p2, p, 1e-10, 1e-13, f'probabilities with the arguments {case["again"]} instead of {case["args"]}')
            close(c2, c, 1e-10, 1e-11, f'heat capacities with the arguments {case["again"]} instead of {case["args"]}')
    rec('kinds:' + kinds, f'isomers:{len(frames)}', 'combined flags' if any(len(a) > 2 and a[0] == '-' and a[1] != '-'
                                                                            for a in case['args']) else 'separate flags',
        nontrivial=mixed)


@st.composite
def cases(draw):
    kinds, tokens = draw(cligen.flags())
    case = draw(molgen.isomer_file(nmin=draw(st.sampled_from([1, 2, 2, 3])), nmax=4, molecules=cligen.rotor_molecules(kinds),
                                   close=draw(st.sampled_from([True, True, False]))))
    lo = draw(st.sampled_from([0, 0, 1, 10, 150, 295, 1500]))
    hi = lo + draw(st.sampled_from([0, 1, 5, 20, 120, 500, 700]))
    options = [cligen.option(draw, '--max_temp', hi)]
    if lo or draw(st.booleans()):
        options.append(cligen.option(draw, '--min_temp', lo))
    case['kinds'] = kinds
    case['args'] = cligen.assemble(draw, 'in.xyz', tokens, options)
    case['again'] = None
    if draw(st.booleans()):
        case['again'] = cligen.assemble(draw, 'in.xyz', draw(cligen.spell(kinds)), options)
    return case


TESTS = [Test('file-to-tables', cases, check, 1000, 20000,
              rule='two or more isomers, one with probability between 1e-6 and 1-1e-6 in some row')]
