"""C24: physically equivalent files give the same results end to end."""
import os
from decimal import Decimal

import numpy as np
from hypothesis import strategies as st

from .. import clirun, cligen, gen, molgen, mols, xyz
from ..common import c_tol, close_cols, p_tol
from ..core import Test, require
from .c04 import ground

KB = 8.617333262145e-5


def tables(frames, args, what):
    with clirun.workdir() as wd:
        cligen.write(wd, frames)
        clirun.run(args, wd).ok(what)
        return cligen.tables(os.path.join(wd, 'in'))


def retext(frame, key, value):
    pairs = [[k, value if k == key else v] for k, v in frame['pairs']]
    return dict(frame, pairs=pairs)


def transformed(case):
    """(frames of the equivalent file, source isomer of each of its isomers, energy shift)."""
    frames, source, shift = case['frames'], list(range(len(case['frames']))), 0.0
    for how in case['how'].split('+'):
        if how == 'move':
            out = []
            for f, m in zip(frames, case['moves']):
                pos = mols.moved(f['pos'], m['quat'], m['shift'], m['mirror'])
                perm = [i for i in m['perm'] if i < len(pos)]
                perm = list(range(len(perm), len(pos)))[::-1] + perm
                out.append(dict(f, symbols=[f['symbols'][i] for i in perm], pos=[pos[i].tolist() for i in perm]))
            frames = out
        elif how == 'shift':
            d, out = Decimal(case['delta']), []
            for f in frames:
                text = format(Decimal(f['energy']) + d, 'f')
                out.append(dict(retext(f, 'Energy', text), energy=text))
            frames, shift = out, float(d)
        elif how == 'modes':
            out = []
            for f, perm in zip(frames, case['modes']):
                freqs = [f['freqs'][i] for i in perm]
                out.append(dict(retext(f, 'Frequencies', xyz.freq_value(freqs)), freqs=freqs))
            frames = out
        else:
            order = list(case['order'])
            if how == 'repeat':
                order = [i for i in order for _ in range(case['k'])] if case['adjacent'] else order * case['k']
            frames, source = [frames[i] for i in order], [source[i] for i in order]
    return frames, source, shift


def check(case, rec):
    kinds, n = case['kinds'], len(case['frames'])
    other, source, shift = transformed(case)
    p, c = tables(case['frames'], case['args'], 'command line')
    p2, c2 = tables(other, case['args'], f'command line on the equivalent file ({case["how"]})')
    what = f'{case["how"]} with {case["args"]}'
    require(p2.shape == (len(p), 1 + len(source)), '%s: probability table of shape %s', what, p2.shape)
    require(c2.shape == c.shape, '%s: heat-capacity table of shape %s', what, c2.shape)
    ts = p[:, 0]
    for other_ts in (p2[:, 0], c[:, 0], c2[:, 0]):
        require(np.array_equal(ts, other_ts), '%s: other temperatures', what)
    sysc = cligen.system_case(case['frames'], kinds)
    if sysc['sig'] is not None:     # only used for tolerances and for the gap above the ground state
        sysc['sig'] = [x or 1 for x in sysc['sig']]
    keep = ts > 0
    if np.any(~keep) and (shift == 0 or ground(sysc)[1] > 1e-7):
        keep[:] = True
    if not np.any(keep):
        rec('levels too close to call')
        return
    ts, p, p2, c, c2 = ts[keep], p[keep], p2[keep], c[keep], c2[keep]
    extra = np.zeros(len(ts))
    if shift and sysc['E'] is not None:
        big = abs(shift) + max(map(abs, sysc['E']))
        # rounding of the shifted energies; at 0 K the gap decides
        extra = np.where(ts > 0, 4 * 2.3e-16 * big / (KB * np.maximum(ts, 1e-6)), 0)
    if 'move' in case['how'] and 'R' in kinds:
        extra = extra + 3e-6
    k = case['k'] if 'repeat' in case['how'] else 1
    if 'repeat' in case['how']:
        # identical isomers share their probability
        want = p[:, 1:][:, source].T / k
    else:
        want = p[:, 1:][:, source].T
    close_cols(p2[:, 1:].T, want, p_tol(sysc, ts, extra), f'probabilities: {what}')
    close_cols(c2[:, 1:].T, c[:, 1:].T, c_tol(sysc, ts, extra), f'heat capacity: {what}')
    mixed = n > 1 and bool(np.any((p[:, 1:] > 1e-6) & (p[:, 1:] < 1 - 1e-6)))
    changed = xyz.file_text(other) != xyz.file_text(case['frames'])
    rec(case['how'], 'kinds:' + kinds, 'mixed' if mixed else 'pure', f'isomers:{n}', nontrivial=changed and mixed)


@st.composite
def cases(draw, how):
    if how == 'several':
        how = '+'.join(draw(st.permutations(['move', 'shift', 'modes', draw(st.sampled_from(['isomers', 'repeat']))]))
                       [:draw(st.sampled_from([2, 3, 4, 4]))])
    # transformations of single isomers first: their parameters belong to the original order
    parts = sorted(how.split('+'), key=lambda h: h in ('isomers', 'repeat'))
    how = '+'.join(parts)
    kinds, tokens = draw(cligen.flags('R' if 'move' in parts else None))
    if 'shift' in parts and not set(kinds) & set('ES'):
        kinds = draw(st.sampled_from('ESS')) + (kinds if kinds != 'S' else '')
        tokens = draw(cligen.spell(kinds))
    if 'modes' in parts and not set(kinds) & set('CQ'):
        kinds += draw(st.sampled_from('CQQ'))
        tokens = draw(cligen.spell(kinds))
    linear = 'R' in kinds and draw(st.integers(0, 4)) == 0
    molecules = molgen.molecule(True) if linear else cligen.rotor_molecules(kinds)
    case = draw(molgen.isomer_file(nmin=draw(st.sampled_from([1, 2, 2, 2])), nmax=4, molecules=molecules, extras=False,
                                   close=draw(st.sampled_from([True, True, False]))))
    n, d = len(case['frames']), len(case['frames'][0]['freqs'])
    for f in case['frames']:
        f['decimals'] = draw(st.sampled_from([9, 12]))
    lo = draw(st.sampled_from([0, 0, 1, 150, 295]))
    options = [cligen.option(draw, '--max_temp', lo + draw(st.sampled_from([0, 1, 20, 300]))),
               cligen.option(draw, '--min_temp', lo)]
    case.update(how=how, kinds=kinds, args=cligen.assemble(draw, 'in.xyz', tokens, options), k=1)
    if 'move' in parts:
        case['moves'] = [{'quat': draw(molgen.quat), 'shift': draw(molgen.shift), 'mirror': draw(st.booleans()),
                          'perm': list(draw(st.permutations(range(12))))} for _ in range(n)]
    if 'shift' in parts:
        case['delta'] = draw(st.one_of(st.integers(-9000, 9000).map(str), st.integers(-9999999, 9999999).map(
            lambda k: str(Decimal(k) / 1000)), st.sampled_from(['0.001', '-27211.386', '4433.12', '1000000'])))
    if 'modes' in parts:
        case['modes'] = [list(draw(st.permutations(range(d)))) for _ in range(n)]
    if 'isomers' in parts or 'repeat' in parts:
        case['order'] = list(draw(st.permutations(range(n))))
        if 'repeat' in parts:
            case['k'] = draw(st.integers(2, 4))
            case['adjacent'] = draw(st.booleans())
    return case


RULE = 'the two files differ, two or more isomers, one with probability between 1e-6 and 1-1e-6 in some row'
TESTS = [Test(h, (lambda h=h: cases(h)), check, 300, 6000, rule=RULE)
         for h in ('move', 'shift', 'modes', 'isomers', 'repeat', 'several')]
