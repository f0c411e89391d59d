"""C19: output tables cover the requested temperature range."""
import os
from decimal import Decimal

import numpy as np
from hypothesis import strategies as st

from .. import clirun, cligen, molgen
from ..common import close, quiet
from ..core import Test, require, sut


def digits(x):
    """Significant digits of a double."""
    return len(repr(float(x)).split('e')[0].replace('.', '').replace('-', '').strip('0'))


def expected_grid(lo, hi):
    lo, hi = Decimal(lo), Decimal(hi)
    count = int((hi - lo) // 1) + 1
    return [lo + k for k in range(count)]


def check(case, rec):
    from occuprob import io as oio
    from occuprob import partitionfunctions as pf
    from occuprob.superpositions import SuperpositionApproximation
    frames, n = case['frames'], len(case['frames'])
    with clirun.workdir() as wd:
        path = cligen.write(wd, frames)
        clirun.run(case['args'], wd).ok(f'{case["args"]}')
        prefix = os.path.join(wd, case['prefix'])
        p, ptext = clirun.read_table(prefix + '_P.dat', 'probability table')
        c, ctext = clirun.read_table(prefix + '_C.dat', 'heat-capacity table')
        want = expected_grid(case['lo'], case['hi'])
        for name, t, cols in (('probability', p, n + 1), ('heat-capacity', c, 2)):
            require(t.shape[1] == cols, '%s table: %s columns, expected %s', name, t.shape[1], cols)
            require(len(t) == len(want), '%s table for %s to %s K: %s rows, expected %s (last %s)', name,
                    case['lo'], case['hi'], len(t), len(want), t[-1, 0])
            close(t[:, 0], [float(x) for x in want], 1e-12, 1e-12, f'temperatures of the {name} table')
            require(bool(np.all(t[:, 0] <= float(case['hi']) * (1 + 1e-12))), '%s table: temperature above the maximum', name)
        # the numbers are those computed, at full precision
        with sut('the same calculation through the API'), quiet(), clirun.fence(wd):
            props = oio.load_properties_from_extxyz(path)
            sa = SuperpositionApproximation()
            for k in case['kinds']:
                sa.add_partition_functions({
                    'E': lambda: pf.ElectronicPF(props['energy'], np.ones(n)),
                    'S': lambda: pf.ElectronicPF(props['energy'], props['multiplicity']),
                    'C': lambda: pf.ClassicalHarmonicPF(props['frequencies']),
                    'Q': lambda: pf.QuantumHarmonicPF(props['frequencies']),
                    'R': lambda: pf.RotationalPF(props['symmetry'], props['moments'])}[k]())
            temp = p[:, 0]
            prob = np.asarray(sa.calc_probability(temp), dtype=float)
            cap = np.asarray(sa.calc_heat_capacity(temp), dtype=float)
    close(p[:, 1:].T, prob, 1e-12, 1e-300, 'probabilities read back')
    close(c[:, 1], cap[0], 1e-12, 1e-14, 'heat capacities read back')
    for name, text, ref in (('probabilities', [x for r in ptext for x in r[1:]], prob),
                            ('heat capacities', [r[1] for r in ctext], cap)):
        need = sum(digits(x) > 15 for x in ref.ravel())
        have = sum(digits(float(x)) > 15 for x in text)
        require(need < 20 or have > need / 2, '%s: %d of the values computed need more than 15 digits, %d of those written have them '
                '(%s)', name, need, have, text[:3])
    whole = Decimal(case['hi']) - Decimal(case['lo'])
    rec('whole range' if whole == int(whole) else 'fractional range',
        'default range' if case['default'] else 'chosen range', f'rows:{min(len(want), 3)}',
        f'isomers:{n}', nontrivial=len(want) > 1)


def hundredth(lo, hi):
    return st.integers(lo * 100, hi * 100).map(lambda k: f'{k / 100:.2f}')


@st.composite
def cases(draw):
    kinds, tokens = draw(cligen.flags())
    case = draw(molgen.isomer_file(nmax=4, molecules=cligen.rotor_molecules(kinds), modes=st.integers(1, 4), extras=False))
    style = draw(st.sampled_from(['default', 'max', 'min', 'both', 'both', 'fraction', 'fraction', 'narrow', 'equal',
                                  'tiny-fraction', 'almost', 'long']))
    lo, hi = '0', '500'
    if style == 'max':
        hi = str(draw(st.integers(0, 1200)))
    elif style == 'long':
        a = draw(st.integers(0, 900))
        lo, hi = str(a), str(a + draw(st.integers(900, 6000)))
    elif style == 'min':
        lo = draw(st.one_of(st.integers(0, 500).map(str), hundredth(0, 499)))
    elif style == 'both':
        a, b = draw(st.integers(0, 900)), draw(st.integers(0, 300))
        lo, hi = str(a), str(a + b)
    elif style == 'fraction':
        a, b = draw(st.integers(0, 40000)), draw(st.integers(0, 20000))
        lo, hi = f'{a / 100:.2f}', f'{(a + b) / 100:.2f}'
    elif style == 'narrow':
        a = draw(st.integers(0, 40000))
        lo, hi = f'{a / 100:.2f}', f'{(a + draw(st.integers(0, 300))) / 100:.2f}'
    elif style == 'equal':
        lo = hi = draw(st.one_of(st.integers(0, 900).map(str), hundredth(0, 900)))
    elif style == 'tiny-fraction':
        # a whole number of kelvins that is not a whole number in binary
        a, b = draw(st.integers(1, 999)), draw(st.integers(1, 300))
        lo, hi = f'{a / 1000:.3f}', f'{b + a / 1000:.3f}'
    elif style == 'almost':
        # a little less, or a little more, than a whole number of kelvins
        a, b = draw(st.integers(0, 300000)), draw(st.integers(1, 200))
        off = draw(st.sampled_from([Decimal('-0.00001'), Decimal('-0.0004'), Decimal('-0.004'), Decimal('-0.3'), Decimal('0.00001'),
                                    Decimal('0.0004')]))
        lo, hi = f'{a / 1000:.3f}', str(Decimal(f'{a / 1000:.3f}') + b + off)
    options = []
    if hi != '500' or draw(st.booleans()):
        options.append(cligen.option(draw, '--max_temp', hi))
    if lo != '0' or draw(st.booleans()):
        options.append(cligen.option(draw, '--min_temp', lo))
    case['default'] = not options
    case['prefix'] = 'in'
    if draw(st.integers(0, 3)) == 0:
        case['prefix'] = 'out'
        options.append(cligen.option(draw, '--out_file', 'out'))
    case.update(kinds=kinds, lo=lo, hi=hi, args=cligen.assemble(draw, 'in.xyz', tokens, options))
    return case


TESTS = [Test('ranges', cases, check, 1200, 20000, rule='two or more rows')]
