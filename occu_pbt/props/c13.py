"""C13: calculations are pure (histories over shared arrays, contributions, superpositions)."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..common import quiet
from ..core import Test, Violation, require, sut

CALCS = ['probability', 'heat', 'average', 'partition', 'w', 'v', 'pf_z', 'pf_w', 'pf_v']


@st.composite
def cases(draw):
    base = draw(gen.system(kinds_=st.sampled_from(['SQR', 'SCR', 'SQ', 'ECR', 'SQR', 'QR']), nmin=1, nmax=4,
                           dmax=4, mmax=1, tiles=(1,)))
    base['dt'] = draw(st.sampled_from(['f', 'f', 'l', 'i']))
    grids = draw(st.lists(st.lists(st.one_of(st.integers(0, 800), st.just(0)), min_size=1, max_size=4),
                          min_size=1, max_size=3))
    n = gen.size_of(base)
    obs = [[[draw(st.integers(-9, 9)) for _ in g] for _ in range(n)] for g in grids]
    nk = len(base['kinds'])
    op = st.one_of(
        st.tuples(st.just('new_pf'), st.integers(0, nk - 1)),
        st.tuples(st.just('new_sa')),
        st.tuples(st.just('add'), st.integers(0, 3), st.lists(st.integers(0, 5), min_size=1, max_size=2)),
        st.tuples(st.just('calc'), st.sampled_from(CALCS), st.integers(0, 5), st.integers(0, 2)),
        st.tuples(st.just('calc'), st.sampled_from(CALCS), st.integers(0, 5), st.integers(0, 2)),
        st.tuples(st.just('again'), st.integers(0, 30)),
        st.tuples(st.just('scribble'), st.integers(0, 30)))
    ops = draw(st.lists(op, min_size=4, max_size=16))
    return {'base': base, 'grids': grids, 'obs': obs, 'ops': [list(o) for o in ops],
            'float_grid': draw(st.booleans())}


class World:
    def __init__(self, case):
        self.arr = gen.arrays(case['base'])
        self.grids = [np.array(g, dtype=float if case['float_grid'] else int) for g in case['grids']]
        self.obs = [np.array(o, dtype=float) for o in case['obs']]
        if 'E' in case['base']['kinds']:
            self.ones = np.ones(len(self.arr['E']))
            self.arr['ones'] = self.ones
        self.inputs = {('data', k): v for k, v in self.arr.items()}
        self.inputs.update({('grid', i): g for i, g in enumerate(self.grids)})
        self.inputs.update({('observable', i): g for i, g in enumerate(self.obs)})
        self.snap = {k: (v.copy(), v.dtype, v.shape, v.flags.writeable) for k, v in self.inputs.items()}
        self.pfs, self.sas, self.returned, self.memo = [], [], [], {}

    def make_pf(self, kind):
        from occuprob import partitionfunctions as pf
        if kind == 'E':
            return pf.ElectronicPF(self.arr['E'], self.ones)
        return gen.make_pf(kind, self.arr)

    def intact(self, after):
        for k, v in self.inputs.items():
            s, dtype, shape, wr = self.snap[k]
            require(v.dtype == dtype and v.shape == shape and v.flags.writeable == wr
                    and np.array_equal(v, s), '%s modified the %s %s it was given', after, k[0], k[1])
        for i, r in enumerate(self.returned):
            if r['scribbled'] or r['value'] is None:
                continue
            require(np.array_equal(r['value'], r['copy'], equal_nan=True),
                    '%s changed the array returned earlier by %s', after, r['what'])


def evaluate(w, what, target, grid):
    """The key identifies what is computed on which contributions; None when not applicable."""
    temp = w.grids[grid]
    if what.startswith('pf_'):
        if not w.pfs:
            return None
        i = target % len(w.pfs)
        kind, pf = w.pfs[i]
        name = {'pf_z': 'calc_part_func', 'pf_w': 'calc_part_func_w', 'pf_v': 'calc_part_func_v'}[what]
        return (name, kind, grid), (lambda: getattr(pf, name)(temp))
    if not w.sas:
        return None
    i = target % len(w.sas)
    kinds, sa = w.sas[i]
    fn = {'probability': lambda: sa.calc_probability(temp), 'heat': lambda: sa.calc_heat_capacity(temp),
          'average': lambda: sa.calc_ensemble_average(temp, w.obs[grid]),
          'partition': lambda: sa.calc_partition_functions(temp),
          'w': lambda: sa.combine_contributions(temp, np.sum, 'calc_part_func_w'),
          'v': lambda: sa.combine_contributions(temp, np.sum, 'calc_part_func_v')}[what]
    return (what, ''.join(kinds), grid), fn


def same(a, b):
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return np.allclose(np.asarray(a, dtype=np.longdouble), np.asarray(b, dtype=np.longdouble),
                       rtol=1e-11, atol=1e-280, equal_nan=True)


def check(case, rec):
    from occuprob.superpositions import SuperpositionApproximation
    kinds = case['base']['kinds']
    w = World(case)
    calls, repeats, scribbles = [], 0, 0
    for op in [['new_pf', k] for k in range(len(kinds))] + [['new_sa']] + [list(o) for o in case['ops']]:
        if op[0] == 'new_pf':
            with sut('construction of a contribution'), quiet():
                w.pfs.append((kinds[op[1]], w.make_pf(kinds[op[1]])))
        elif op[0] == 'new_sa':
            with sut('construction of a superposition'), quiet():
                w.sas.append(([], SuperpositionApproximation()))
        elif op[0] == 'add':
            have, sa = w.sas[op[1] % len(w.sas)]
            picked = [w.pfs[i % len(w.pfs)] for i in op[2]]
            with sut('add_partition_functions'), quiet():
                sa.add_partition_functions([p for _, p in picked])
            have += [k for k, _ in picked]
        elif op[0] in ('calc', 'again'):
            if op[0] == 'again':
                if not calls:
                    continue
                op = calls[op[1] % len(calls)]
            found = evaluate(w, op[1], op[2], op[3] % len(w.grids))
            if found is None:
                continue
            key, fn = found
            with sut(op[1]), quiet():
                value = fn()
            calls.append(op)
            copy = None if value is None else np.array(value)
            if key in w.memo:
                repeats += 1
                if not same(w.memo[key], copy):
                    raise Violation(f'{key[0]} of the contributions {key[1]} returned {copy}, earlier {w.memo[key]}')
            else:
                w.memo[key] = copy
            w.returned.append({'value': value, 'copy': copy, 'what': key[0], 'scribbled': False})
        elif op[0] == 'scribble':
            live = [r for r in w.returned if isinstance(r['value'], np.ndarray) and r['value'].flags.writeable]
            if live:
                r = live[op[1] % len(live)]
                r['value'][...] = -12345.0
                # returned arrays may share memory with each other only at the cost of this
                r['scribbled'] = True
                scribbles += 1
        w.intact(op[0] if op[0] != 'calc' else op[1])
    # everything computed so far, computed once more at the end
    for op in calls:
        key, fn = evaluate(w, op[1], op[2], op[3] % len(w.grids))
        if key not in w.memo:
            continue
        with sut(op[1]), quiet():
            value = fn()
        repeats += 1
        if not same(w.memo[key], value):
            raise Violation(f'{key[0]} of the contributions {key[1]} returned {value}, earlier {w.memo[key]}')
        w.intact(op[1])
    rec(f'superpositions:{min(len(w.sas), 3)}', 'scribbled' if scribbles else 'not scribbled',
        nontrivial=repeats > 2)


TESTS = [Test('history', cases, check, 6000, 120000, rule='more than two calculations were repeated and compared')]
