"""C23: dictionary comparison decides equality of contents."""
import numpy as np
from hypothesis import strategies as st

from ..common import quiet
from ..core import Test, require, sut

KEYS = ['energy', 'multiplicity', 'frequencies', 'moments', 'symmetry', 'a', 'b']


def array(spec):
    arr = np.array(spec['values'], dtype=float).reshape(spec['shape'])
    return arr.astype({'f': float, 'i': int, 'l': np.longdouble}[spec['dt']])


def derive(case):
    """(first, second, equal?)"""
    first = {k: array(v) for k, v in case['items']}
    second = {k: array(v) for k, v in case['items']}
    how, keys = case['how'], list(first)
    key = keys[case['pick'] % len(keys)] if keys else None
    if how == 'same':
        return first, second, True
    if how == 'reordered':
        return first, {k: second[k] for k in reversed(keys)}, True
    if how == 'rounding':
        for k in keys:
            second[k] = second[k].astype(float) * (1 + 1e-12 * (-1)**len(k))
        return first, second, True
    if how == 'extra key':
        second['extra'] = np.zeros(2)
        return first, second, False
    if key is None:
        return first, second, True
    if how == 'missing key':
        del second[key]
        return first, second, False
    if how == 'renamed key':
        second = {('renamed' if k == key else k): v for k, v in second.items()}
        return first, second, False
    arr = second[key]
    if how == 'value':
        if arr.size == 0:
            return first, second, True
        flat = arr.astype(float).ravel().copy()
        i = case['where'] % flat.size
        flat[i] += (abs(flat[i]) * 0.01 + 0.01) * case['sign'] * case['big']
        second[key] = flat.reshape(arr.shape)
        return first, second, False
    if how in ('close', 'tiny'):
        # a small difference, but ten times what rounding could explain
        flat = arr.astype(float).ravel().copy()
        if flat.size == 0:
            return first, second, True
        i = case['where'] % flat.size
        if how == 'tiny':
            flat[i] = case['small']
            first[key] = flat.reshape(arr.shape).copy()
        flat[i] += case['sign'] * (1e-7 + 1e-4 * abs(flat[i]))
        second[key] = flat.reshape(arr.shape)
        return first, second, False
    if how == 'swapped values':
        flat = arr.astype(float).ravel().copy()
        if flat.size < 2 or abs(flat[0] - flat[-1]) < 0.5:
            return first, second, True
        flat[0], flat[-1] = flat[-1], flat[0]
        second[key] = flat.reshape(arr.shape)
        return first, second, False
    # shapes
    new = {'added axis': lambda: arr[None], 'column': lambda: arr[..., None],
           'flattened': lambda: arr.reshape(-1), 'truncated': lambda: arr.reshape(-1)[:-1],
           'repeated': lambda: np.concatenate([arr.reshape(-1)] * 2), 'transposed': lambda: arr.T,
           'broadcast': lambda: np.broadcast_to(arr, (3,) + arr.shape).copy(),
           'scalar': lambda: np.array(arr.reshape(-1)[0] if arr.size else 0.0)}[how]()
    second[key] = new
    if new.shape == arr.shape:
        return first, second, bool(np.array_equal(new, arr))
    return first, second, False


HOW = ['same', 'reordered', 'rounding', 'extra key', 'missing key', 'renamed key', 'value', 'value', 'value', 'close', 'tiny',
       'swapped values', 'added axis', 'column', 'flattened', 'truncated', 'repeated', 'transposed', 'broadcast', 'scalar']


def check(case, rec):
    from occuprob.utils import compare_numpy_dictionaries
    first, second, want = derive(case)
    if case['constant']:
        # all elements equal, so that broadcasting could hide a difference in shape
        if case['how'] not in ('value', 'swapped values', 'close', 'tiny'):
            for d in (first, second):
                for k in d:
                    d[k] = np.full(np.shape(d[k]), 2.0)
            if case['how'] == 'transposed':
                want = all(first[k].shape == second[k].shape for k in first)
    kept = [{k: np.array(v) for k, v in d.items()} for d in (first, second)]
    for a, b, name in ((first, second, 'first with second'), (second, first, 'second with first')):
        with sut(f'comparing ({case["how"]})'), quiet():
            got = compare_numpy_dictionaries(a, b)
        require(bool(got) == want, 'comparing %s, %s: %r, expected %s', name, case['how'], got, want)
    for d, k in zip((first, second), kept):
        require(list(d) == list(k) and all(np.array_equal(d[x], k[x]) and np.shape(d[x]) == k[x].shape for x in k),
                'a dictionary was modified')
    rec(case['how'], 'equal' if want else 'different', nontrivial=len(first) > 0)


@st.composite
def cases(draw):
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=0, max_size=4, unique=True))
    items = []
    for k in keys:
        shape = draw(st.sampled_from([[1], [2], [3], [2, 3], [3, 3], [1, 3], [3, 1], [2, 2], [], [0], [2, 1, 3]]))
        size = int(np.prod(shape)) if shape else 1
        values = [draw(st.one_of(st.integers(-9, 9).map(float), st.integers(-9000, 9000).map(lambda x: x / 100)))
                  for _ in range(size)]
        items.append([k, {'shape': shape, 'values': values, 'dt': draw(st.sampled_from(['f', 'f', 'i', 'l']))}])
    return {'items': items, 'how': draw(st.sampled_from(HOW)), 'pick': draw(st.integers(0, 5)),
            'where': draw(st.integers(0, 20)), 'sign': draw(st.sampled_from([1, -1])), 'big': draw(st.sampled_from([1, 1, 100])),
            'small': draw(st.sampled_from([0.0, 1e-7, 1e-6, 1e-5, 1e-4, -1e-6, -1e-5])),
            'constant': draw(st.integers(0, 3)) == 0}


TESTS = [Test('pairs', cases, check, 10000, 300000, rule='non-empty dictionaries')]
