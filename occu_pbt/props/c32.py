"""C32: contributions defined by users take part like the built-in ones."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model
from ..common import c_tol, close, close_cols, finite, heat, p_tol, probability, quiet, table, mixed
from ..core import Test, Violation, require, sut

KB = 8.617333262145e-5
H = 4.135667696e-3
LD = np.longdouble


def evaluate(item, t, n, case):
    """(ln Z, w, v) of a contribution in the documented sense, in extended precision, shape (n, len(t))."""
    t = np.asarray(t, dtype=LD)
    kt = LD(str(KB)) * t
    one = np.ones((n, len(t)), dtype=LD)
    kind = item['kind']
    if kind == 'power':         # Z = c T^k, for instance translation
        k = LD(item['k'])
        return np.log(np.array(item['c'], dtype=LD))[:, None] + k * np.log(t), -k * one, k * one
    if kind == 'levels':        # a second level of each isomer
        gap = np.array(item['gap'], dtype=LD)[:, None] / kt
        g = np.array(item['g'], dtype=LD)[:, None]
        q = g * np.exp(-gap)
        p = q / (1 + q)
        return np.log1p(q) * one, -gap * p, gap**2 * p * (1 - p)
    if kind == 'boltzmann':     # an energy given by the user, in eV above a common zero
        x = np.array(item['e'], dtype=LD)[:, None] / kt
        return np.log(np.array(item['c'], dtype=LD))[:, None] - x, -x, 0 * one
    if kind == 'scaled':        # a built-in contribution with a factor per isomer
        logz, u, c = model.fast_parts(gen.reference(dict(case, kinds=item['of'])), t)
        return logz + np.log(np.array(item['c'], dtype=LD))[:, None], -u, c
    raise KeyError(kind)


def user_class(base, item, n, case, seen):
    """A contribution with nothing but the documented methods."""
    style = item['style']

    def out(arr):
        arr = np.asarray(arr)
        if style in ('integer', 'short') and np.all(arr == np.round(arr)) and np.all(np.abs(arr) < 1e15):
            arr = arr.astype(int)
            return arr if style == 'integer' else arr.astype(np.result_type(np.min_scalar_type(arr.max()), np.min_scalar_type(arr.min())))
        arr = arr.astype(LD if style == 'extended' else float)
        if style == 'fortran':
            arr = np.asfortranarray(arr)
        if style == 'readonly':
            arr = arr.copy()
            arr.flags.writeable = False
        return arr

    def cached(key, t, make):
        if style != 'cached':
            return out(make())
        t = np.asarray(t)
        key = (key, t.shape, t.tobytes(), str(t.dtype))
        if key not in seen:
            seen[key] = out(make())
            seen[key + ('copy',)] = seen[key].copy()
        return seen[key]

    class Contribution(base):
        def calc_part_func(self, temperature):
            return cached('z', temperature, lambda: np.exp(evaluate(item, temperature, n, case)[0]))

        def calc_part_func_w(self, temperature):
            return cached('w', temperature, lambda: evaluate(item, temperature, n, case)[1])

        def calc_part_func_v(self, temperature):
            return cached('v', temperature, lambda: evaluate(item, temperature, n, case)[2])
    return Contribution


def scaled_class(base, factors):
    """A built-in contribution whose partition function alone is redefined."""
    class Scaled(base):
        def calc_part_func(self, temperature):
            return np.asarray(super().calc_part_func(temperature)) * np.array(factors, dtype=float)[:, None]
    return Scaled


def make(item, n, case, arr, seen):
    from occuprob import partitionfunctions as pf
    if item['kind'] == 'scaled':
        of = item['of']
        cls = scaled_class({'E': pf.ElectronicPF, 'S': pf.ElectronicPF, 'C': pf.ClassicalHarmonicPF,
                            'Q': pf.QuantumHarmonicPF, 'R': pf.RotationalPF}[of], item['c'])
        if of in 'ES':
            return cls(arr['E'], np.ones(n) if of == 'E' else arr['g'])
        return cls(arr['sig'], arr['I']) if of == 'R' else cls(arr['F'])
    return user_class(pf.PartitionFunction, item, n, case, seen)()


def check(case, rec):
    from occuprob.superpositions import SuperpositionApproximation
    n, ts = gen.size_of(case), np.array(case['T'], dtype=float)
    arr, caches = gen.arrays(case), [{} for _ in case['items']]
    temp = gen.temperatures(case)
    kept = [k for i, k in enumerate(case['kinds']) if i not in case['replaced']]
    with sut('contributions defined by the user'), quiet():
        parts = [gen.make_pf(k, arr) for k in kept]
        user = [make(item, n, case, arr, seen) for item, seen in zip(case['items'], caches)]
        everything = parts + user
        everything = [everything[i % len(everything)] for i in case['order'] if i < len(everything)]
        sa = SuperpositionApproximation()
        if case['singly']:
            for p in everything:
                sa.add_partition_functions(p)
        else:
            sa.add_partition_functions(everything)
    logs = [evaluate(item, ts, n, case) for item in case['items']]
    if kept:
        lz, u, c = model.fast_parts(gen.reference(dict(case, kinds=''.join(kept))), ts)
        logs.append((lz, -u, c))
    logz, w, v = (sum(x[i] for x in logs) for i in range(3))
    for item, x in zip(case['items'], logs):
        # what can not be represented is outside what a contribution of this form can say
        if np.max(np.abs(x[0])) > 600:
            rec('beyond the range of a number')
            return
    p, cap = model.mixture(logz, -w, v)
    size = sum(np.abs(x[0]).max(axis=0) + np.abs(x[1]).max(axis=0) for x in logs).astype(float)
    tol = p_tol(case, ts, 4e-15 * size)
    for again in range(2):
        got = finite(probability(sa, temp, n), 'probability')
        close_cols(got, p, tol, 'probability with contributions defined by the user')
        got_c = finite(heat(sa, temp), 'heat capacity')
        spread_w = np.abs(w - w[:1]).max(axis=0).astype(float)
        close_cols(got_c, cap[None, :], c_tol(case, ts) + tol * (20 + spread_w**2) + 1e-14 * (1 + np.abs(w).max(axis=0).astype(float))**2,
                   'heat capacity with contributions defined by the user')
    with sut('calc_partition_functions'), quiet():
        z = table(sa.calc_partition_functions(temp), (n, len(ts)), 'calc_partition_functions')
        each = [table(x.calc_part_func(temp), (n, len(ts)), 'calc_part_func').astype(LD) for x in everything]
    prod = np.prod(each, axis=0)
    if all(np.all((x > 1e-60) & (x < 1e60)) for x in each) and np.all((prod > 1e-250) & (prod < 1e250)):
        close(z, prod, 1e-10, 0, 'product of the partition functions')
    for seen, key, a in ((seen, key, a) for seen in caches for key, a in seen.items()):
        if key[-1] != 'copy' and not np.array_equal(a, seen[key + ('copy',)]):
            raise Violation('an array returned by a contribution of the user was modified')
    rec(*(f"{i['kind']}" for i in case['items']), f"style:{case['items'][0]['style']}",
        'with built-in ones' if kept else 'alone', nontrivial=mixed(p.astype(float)))


@st.composite
def cases(draw):
    case = draw(gen.system(nmin=draw(st.sampled_from([1, 2, 2])), nmax=4, dmax=4, tmin=5, tmax=5000, mmax=3, tiles=(1,), scales=False))
    n = gen.size_of(case)
    tmin = min(case['T'])
    top = 12 * KB * tmin
    factor = st.sampled_from([1.0, 1.0, 2.0, 0.25, 7.5, 3e-3])
    big = draw(st.sampled_from([1.0, 1.0, 1.0, 1e100, 1e-120]))
    items = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        kind = draw(st.sampled_from(['power', 'levels', 'boltzmann', 'scaled']))
        item = {'kind': kind, 'style': draw(st.sampled_from(['plain', 'plain', 'extended', 'fortran', 'readonly', 'cached', 'integer', 'short'])),
                'c': [draw(factor) * big for _ in range(n)]}
        if kind == 'power':
            item['k'] = draw(st.sampled_from([0, 1.5, 1, 2.5, -1, 3]))
        elif kind == 'levels':
            item['gap'] = [top * draw(st.integers(0, 16)) / 16 for _ in range(n)]
            item['g'] = [draw(st.integers(1, 9)) for _ in range(n)]
        elif kind == 'boltzmann':
            item['e'] = [top * draw(st.integers(0, 16)) / 16 for _ in range(n)]
        else:
            item['of'] = draw(st.sampled_from(case['kinds']))
            item['c'] = [x / big for x in item['c']]
        items.append(item)
    case['items'] = items
    # now and then only contributions of the user
    case['replaced'] = list(range(len(case['kinds']))) if draw(st.integers(0, 3)) == 0 else []
    case['order'] = draw(st.permutations(range(len(case['kinds']) + len(items) - len(case['replaced']))))
    case['singly'] = draw(st.booleans())
    return case


METHODS = ['calc_part_func', 'calc_part_func_w', 'calc_part_func_v']


def check_incomplete(case, rec):
    """A contribution without one of the three methods never yields a result."""
    from occuprob import partitionfunctions as pf
    from occuprob.superpositions import SuperpositionApproximation
    n, temp = case['n'], np.array(case['T'], dtype=float)
    body = {m: (lambda self, temperature: np.ones((n, len(temperature)))) for m in METHODS if m not in case['missing']}
    cls = type('Incomplete', (pf.PartitionFunction,), body)
    results = {}
    with quiet():
        try:
            sa = SuperpositionApproximation()
            sa.add_partition_functions([pf.ElectronicPF(np.arange(n) * 0.01, np.ones(n)), cls()])
        except Exception as exc:  # noqa: BLE001
            rec(type(exc).__name__, nontrivial=True)
            return
        for name in ('calc_heat_capacity', 'calc_probability', 'calc_partition_functions'):
            try:
                results[name] = getattr(sa, name)(temp)
            except Exception:  # noqa: BLE001
                results[name] = None
    if case['missing'] == ['calc_part_func'] or len(case['missing']) > 1 and 'calc_part_func' in case['missing']:
        for name, r in results.items():
            require(r is None, '%s gave a result although the contribution does not define its partition function', name)
    else:
        require(results['calc_heat_capacity'] is None, 'a heat capacity although the contribution lacks %s', case['missing'])
    rec('accepted at first', nontrivial=True)


@st.composite
def incomplete(draw):
    return {'n': draw(st.integers(1, 4)), 'T': draw(st.lists(st.integers(1, 900), min_size=1, max_size=4)),
            'missing': draw(st.lists(st.sampled_from(METHODS), min_size=1, max_size=3, unique=True))}


TESTS = [
    Test('user', cases, check, 4000, 100000, rule='two or more isomers share the population'),
    Test('incomplete', incomplete, check_incomplete, 60, 400, rule='every case'),
]
