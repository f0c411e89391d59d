"""C07: contributions combine the same way however they were added (histories)."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import close, close_cols, finite, heat, probability, p_tol, c_tol, quiet, table
from ..core import Test, require, sut

METHODS = {'w': 'calc_part_func_w', 'v': 'calc_part_func_v'}


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    d = draw(st.integers(1, 4))
    pool = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from('ESSCCQQR'))
        item = {'kinds': k, 'E': None, 'g': None, 'F': None, 'sig': None, 'I': None, 'tile': 1}
        if k in 'ES':
            item['E'] = [draw(st.integers(0, 200)) * 1e-3 - 5 for _ in range(n)]
            item['g'] = [draw(st.integers(1, 6)) for _ in range(n)]
        elif k in 'CQ':
            item['F'] = [[draw(st.integers(5, 400)) / 10 for _ in range(d)] for _ in range(n)]
        else:
            item['sig'] = [draw(st.sampled_from([1, 2, 3, 6])) for _ in range(n)]
            item['I'] = [[draw(st.integers(50, 9000)) / 10 for _ in range(3)] for _ in range(n)]
        pool.append(item)
    idx = st.integers(0, len(pool) - 1)
    grid = st.lists(st.integers(1, 900).map(float), min_size=1, max_size=4)
    op = st.one_of(
        st.tuples(st.just('one'), idx),
        st.tuples(st.just('list'), st.lists(idx, min_size=0, max_size=3)),
        st.tuples(st.just('tuple'), st.lists(idx, min_size=1, max_size=3)),
        st.tuples(st.just('mutate'), st.integers(0, 5), st.sampled_from(['append', 'clear', 'replace']), idx),
        st.tuples(st.sampled_from(['calc', 'calc', 'calc']), grid))
    ops = draw(st.lists(op, min_size=2, max_size=10))
    ops.append(('calc', draw(grid)))
    return {'pool': pool, 'ops': [list(o) for o in ops], 'shuffle': draw(st.integers(0, 10**6))}


def check(case, rec):
    from occuprob.superpositions import SuperpositionApproximation
    with sut('construction'), quiet():
        pool = [gen.make_pf(i['kinds'], gen.arrays(i)) for i in case['pool']]
        sa = SuperpositionApproximation()
    n = gen.size_of(case['pool'][0])
    added, lists, calcs, after_calc = [], [], 0, False
    for op in case['ops']:
        if op[0] in ('one', 'list', 'tuple'):
            after_calc = after_calc or (calcs > 0 and op[1] != [])
            if op[0] == 'one':
                arg, new = pool[op[1]], [op[1]]
            else:
                new = op[1]
                arg = [pool[i] for i in new]
                if op[0] == 'list':
                    lists.append(arg)
                else:
                    arg = tuple(arg)
            before = list(arg) if op[0] == 'list' else None
            with sut('add_partition_functions'), quiet():
                sa.add_partition_functions(arg)
            if before is not None:
                require(len(arg) == len(before) and all(x is y for x, y in zip(arg, before)),
                        "the caller's list was modified")
            added += new
            for lst in lists:
                require(all(any(x is p for p in pool) for x in lst), "the caller's list was modified")
        elif op[0] == 'mutate':
            if lists:
                lst = lists[op[1] % len(lists)]
                if op[2] == 'append':
                    lst.append(pool[op[3]])
                elif op[2] == 'clear':
                    lst.clear()
                else:
                    lst[:] = [pool[op[3]]]
        elif added:
            calcs += 1
            temp = np.array(op[1])
            snap = [list(x) for x in lists]
            verify(case, sa, pool, added, temp, n)
            require(all(len(x) == len(y) and all(u is v for u, v in zip(x, y)) for x, y in zip(lists, snap)),
                    "a list handed over earlier was modified by a calculation")
        else:
            with sut('calculation without contributions'), quiet():
                require(sa.calc_probability(np.array(op[1])) is None, 'empty superposition returned a result')
    rec('added after a calculation' if after_calc else 'added before',
        f'contributions:{min(len(added), 5)}',
        'repeated' if len(set(added)) < len(added) else 'distinct',
        nontrivial=len(added) > 1 and (len([o for o in case['ops'] if o[0] in ('one', 'list', 'tuple')]) > 1))


def verify(case, sa, pool, added, temp, n):
    from occuprob.superpositions import SuperpositionApproximation
    shape = (n, len(temp))
    with sut('individual contributions'), quiet():
        parts = {m: [table(getattr(pool[i], name)(temp), shape, name) for i in added]
                 for m, name in METHODS.items()}
        zs = [table(pool[i].calc_part_func(temp), shape, 'calc_part_func') for i in added]
        comb = {m: sa.combine_contributions(temp, np.sum, name) for m, name in METHODS.items()}
        ztot = sa.calc_partition_functions(temp)
    for m in METHODS:
        want = np.sum(np.array(parts[m], dtype=np.longdouble), axis=0)
        size = np.sum(np.abs(np.array(parts[m], dtype=np.longdouble)), axis=0)
        close(table(comb[m], shape, 'combined ' + METHODS[m]), want, 1e-11, 1e-11 * (1 + float(size.max())),
              'combined ' + METHODS[m])
    want = np.prod(np.array(zs, dtype=np.longdouble), axis=0)
    got = table(ztot, shape, 'combined partition functions')
    small = np.min(np.array([z.astype(np.longdouble) for z in zs]), axis=(0, 1, 2))
    if small > 1e-60 and np.all(want > 1e-250) and np.all(want < 1e250):
        close(got, want, 1e-10, 0, 'combined partition functions')
        p = want / want.sum(axis=0)
    else:
        p = None
    prob = finite(probability(sa, temp, n), 'occupation probability')
    c = finite(heat(sa, temp), 'heat capacity')
    # model of tolerance: all energies of the pool together
    t = temp
    es = sum((max(i['E']) - min(i['E'])) if i['E'] else 4.14e-3 * max(map(sum, i['F'])) if i['F'] else 0
             for i in (case['pool'][k] for k in added))
    be = es / (8.617e-5 * t)
    d = sum(len(case['pool'][k]['F'][0]) for k in added if case['pool'][k]['F'])
    if p is not None:
        close_cols(prob, p, 1e-9 + 1e-13 * be, 'probability against the product of the contributions')
    order = sorted(range(len(added)), key=lambda k: (k * 7919 + case['shuffle']) % 104729)
    with sut('superposition built at once'), quiet():
        other = SuperpositionApproximation()
        other.add_partition_functions([pool[added[k]] for k in order])
    close_cols(prob, probability(other, temp, n), 1e-9 + 1e-13 * be, 'probability against another order of addition')
    close_cols(c, heat(other, temp), 1e-8 * (1 + d) + 1e-12 * be * (20 + d), 'heat capacity against another order of addition')
    # the limit of zero temperature, evaluated at a microkelvin at best
    zero = np.array([0.0, float(temp[0])])
    be0 = np.maximum(es / (8.617e-5 * np.array([1e-6, temp[0]])), 1)
    close_cols(probability(sa, zero, n), probability(other, zero, n), 1e-9 + 1e-13 * be0,
               'probability at 0 K against another order of addition')
    close_cols(heat(sa, zero), heat(other, zero), 1e-8 * (1 + d) + 1e-12 * be0 * (20 + d),
               'heat capacity at 0 K against another order of addition')
    # and against the individual terms, from the documented formula
    w = np.sum(np.array(parts['w'], dtype=np.longdouble), axis=0)
    v = np.sum(np.array(parts['v'], dtype=np.longdouble), axis=0)
    prob = prob.astype(np.longdouble)
    mean = (prob * w).sum(axis=0)
    want = (prob * (w - mean)**2 + prob * v).sum(axis=0)[None, :]
    close_cols(c, want, 1e-8 * (1 + d) + 1e-12 * be * (20 + d) + 1e-14 * (np.abs(w).max(axis=0))**2,
               'heat capacity against the sum of the contributions')


TESTS = [Test('history', cases, check, 4000, 100000,
              rule='two or more contributions, added in two or more calls')]
