"""C43: isomers and groups of isomers affect each other through the normalisation only."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..common import average, build, c_tol, close_cols, finite, heat, mixed, p_tol, probability, quiet
from ..core import Test, Violation, require, sut

KB = 8.617333262145e-5
TINY = 1e-280


def part(case, members):
    out = dict(case)
    for k in ('E', 'g', 'F', 'sig', 'I'):
        if case[k] is not None:
            out[k] = [case[k][a] for a in members]
    return out


def relative(a, b, tol, what):
    """|a-b| <= tol |b|, one tolerance per column."""
    a, b = np.asarray(a, dtype=np.longdouble), np.asarray(b, dtype=np.longdouble)
    require(a.shape == b.shape, '%s: shapes %s and %s', what, a.shape, b.shape)
    tol = np.minimum(np.broadcast_to(np.asarray(tol, dtype=float), a.shape[-1:]), 0.5)
    bad = ~(np.abs(a - b) <= tol * np.abs(b) + TINY)
    if np.any(bad):
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation(f'{what}: {a[i]!r}, expected {b[i]!r} at {i} (relative tolerance {tol[i[-1]]:.1e})')


def rounding(*cases):
    """What the rounding of the energies themselves may change."""
    ts = np.maximum(np.array(cases[0]['T'], dtype=float), 1e-6)
    big = max((abs(e) for c in cases if c['E'] is not None for e in c['E']), default=0.0)
    return 6 * 2.3e-16 * big / (KB * ts)


def derivatives(case, temp):
    """Combined first derivatives, from the contributions of the system."""
    arr = gen.arrays(case)
    with sut('first derivatives'), quiet():
        return np.sum([np.asarray(gen.make_pf(k, arr).calc_part_func_w(temp), dtype=np.longdouble) for k in case['kinds']], axis=0)


def check_groups(case, rec):
    n, m = gen.size_of(case), len(case['T'])
    names = (case['groups'] * n)[:n]
    groups = [[a for a in range(n) if names[a] == g] for g in sorted(set(names))]
    temp, ts = gen.temperatures(case), np.array(case['T'])
    extra = rounding(case)
    tol, ctol = p_tol(case, ts, extra), c_tol(case, ts, extra)
    whole = build(case)
    p = np.asarray(finite(probability(whole, temp, n), 'occupation probability'), dtype=np.longdouble)
    w = derivatives(case, temp)
    obs = np.array((case['obs'] * n)[:n], dtype=float)[:, None] * np.ones((1, m))
    share, caps, means, values = [], [], [], []
    for g in groups:
        sub = build(part(case, g))
        what = f'isomers {g} of {n}'
        q = np.asarray(finite(probability(sub, temp, len(g)), what), dtype=np.longdouble)
        share.append(p[g].sum(axis=0))
        relative(p[g], share[-1] * q, 3 * tol, f'probabilities of {what} against those of the group alone')
        caps.append(np.asarray(finite(heat(sub, temp), f'heat capacity of {what}'), dtype=np.longdouble)[0])
        means.append(np.asarray(average(sub, temp, np.asarray(w[g], dtype=float)), dtype=np.longdouble)[0])
        values.append(np.asarray(average(sub, temp, obs[g]), dtype=np.longdouble)[0])
    share, caps, means, values = (np.array(x) for x in (share, caps, means, values))
    total = (share * means).sum(axis=0)
    want = (share * caps).sum(axis=0) + (share * (means - total)**2).sum(axis=0)
    close_cols(heat(whole, temp), want[None, :], 4 * ctol, f'heat capacity from the groups {groups}')
    close_cols(average(whole, temp, obs), (share * values).sum(axis=0)[None, :], 400 * tol, f'ensemble average from the groups {groups}')
    rec(f"kinds:{''.join(sorted(case['kinds']))}", f'groups:{min(len(groups), 4)}', f'isomers:{min(n, 10)}',
        nontrivial=len(groups) > 1 and mixed(share))


def check_changed(case, rec):
    n, a = gen.size_of(case), case['at'] % gen.size_of(case)
    other = dict(case)
    for k, v in case['change'].items():
        other[k] = [v if b == a else x for b, x in enumerate(case[k])]
    temp, ts = gen.temperatures(case), np.array(case['T'])
    extra = rounding(case, other)
    tol = np.maximum(p_tol(case, ts, extra), p_tol(other, ts, extra))
    p, q = (np.asarray(finite(probability(build(c), temp, n), 'occupation probability'), dtype=np.longdouble) for c in (case, other))
    what = f'isomer {a} changed to {case["change"]}'
    rest = [b for b in range(n) if b != a]
    if rest:
        relative(q[rest] * p[rest].sum(axis=0), p[rest] * q[rest].sum(axis=0), 3 * tol, f'the others with {what}')
    ref = [model.System(c['kinds'], c['E'], c['g'], c['F'], c['sig'], c['I'], c['tile']) for c in (case, other)]
    moved = 0.0
    for i, t in enumerate(case['T']):
        with model.mp.workdps(40):
            logs = [r.log_weights(model.beta_of(t)) for r in ref]
            err = [model.error_logs(r, t) for r in ref]
            for b in rest:
                if min(p[a, i], p[b, i], q[a, i], q[b, i]) < TINY:
                    continue
                want = (logs[1][a] - logs[1][b]) - (logs[0][a] - logs[0][b])
                slack = float(err[0][a] + err[0][b] + err[1][a] + err[1][b]) + 4 * float(extra[i]) + 1e-11
                got = float(np.log(q[a, i]) - np.log(q[b, i]) - np.log(p[a, i]) + np.log(p[b, i]))
                moved = max(moved, abs(float(want)))
                require(abs(got - float(want)) <= slack, '%s: logarithm of its odds against isomer %s at %s K moved by %r, its weight by %r',
                        what, b, t, got, float(want))
    rec(f"kinds:{''.join(sorted(case['kinds']))}", *(f'changed:{k}' for k in case['change']), nontrivial=n > 1 and moved > 1e-6)


@st.composite
def groups(draw):
    if draw(st.integers(0, 5)) == 0:
        case = draw(gen.transition())
    else:
        case = draw(gen.system(nmin=draw(st.sampled_from([2, 3])), nmax=7, dmax=4, tmin=2, tmax=1e4, tiles=(1, 1, 1, 4, 40), grow='nt'))
    if case['dt'] == 'i':
        case['dt'] = 'f'
    if case['E'] is not None and draw(st.booleans()):
        # levels within a few kT
        kt = KB * max(case['T'])
        case['E'] = [kt * draw(st.integers(0, 100)) / 16 for _ in case['E']]
    if case['F'] is not None and draw(st.booleans()):
        case['F'] = [[f * (1 + 0.01 * (k % 9)) for f in case['F'][0]] for k in range(len(case['F']))]
    case['groups'] = draw(st.lists(st.integers(0, draw(st.sampled_from([1, 1, 2, 3]))), min_size=2, max_size=7))
    case['obs'] = [draw(st.integers(-50, 50)) for _ in range(5)]
    return case


@st.composite
def changed(draw):
    case = draw(gen.system(nmin=2, nmax=4, dmax=4, tmin=2, tmax=1e4, tiles=(1, 1, 1, 4, 40), mmax=3, wide=True))
    case['T'] = [max(t, 1e-3) for t in case['T']]
    n = gen.size_of(case)
    if case['E'] is not None and draw(st.booleans()):
        kt = KB * max(case['T'])
        case['E'] = [kt * draw(st.integers(0, 100)) / 16 for _ in case['E']]
    if case['F'] is not None and draw(st.booleans()):
        case['F'] = [[f * (1 + 0.01 * (k % 9)) for f in case['F'][0]] for k in range(n)]
    case['dt'] = 'f'
    a = case['at'] = draw(st.integers(0, n - 1))
    new = {}
    can = [k for k in ('E', 'g', 'F', 'sig', 'I') if case[k] is not None]
    for k in draw(st.lists(st.sampled_from(can), min_size=1, max_size=2, unique=True)):
        if k == 'E':
            kt = KB * draw(st.sampled_from(case['T']))
            new[k] = case['E'][a] + kt * draw(st.integers(-200, 200)) / 16
        elif k == 'g':
            new[k] = draw(gen.multiplicity())
        elif k == 'F':
            j, row = draw(st.integers(0, len(case['F'][a]) - 1)), list(case['F'][a])
            row[j] *= draw(st.sampled_from([0.5, 0.9, 0.999, 1.001, 1.1, 2.0, 3.0]))
            new[k] = row
        elif k == 'sig':
            new[k] = draw(st.sampled_from([1, 2, 3, 4, 6, 12, 24, 60]))
        else:
            f = draw(st.sampled_from([0.5, 0.99, 1.25, 3.0, 40.0]))
            new[k] = [x * f for x in case['I'][a]]
    case['change'] = new
    return case


TESTS = [Test('groups', groups, check_groups, 2400, 60000, rule='two or more groups sharing population'),
         Test('changed', changed, check_changed, 1600, 40000, rule='the weight of one of several isomers changed')]
