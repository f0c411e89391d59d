"""C38: an aborted calculation leaves no trace (faults at any line)."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, sched
from ..common import quiet
from ..core import Test, Violation, require, sut
from .c35 import CALCS, call, make, same


class Interrupt(KeyboardInterrupt):
    pass


class NoMemory(MemoryError):
    pass


KINDS = {'interrupt': Interrupt, 'memory': NoMemory}


def raiser(kind):
    def act():
        raise KINDS[kind]()
    return act


def check(case, rec):
    alone, counts = [], []
    for t in case['tasks']:
        with sut('construction'), quiet():
            fresh = make(case)
        with sut(f'{t["what"]} alone'), quiet():
            value, lines = sched.count_lines(call(fresh, t))
        alone.append(None if value is None else np.array(value))
        counts.append(lines)
    with sut('construction'), quiet():
        world = make(case)
    kept = [np.array(x) for x in world[2] + world[3]]
    aborted = 0
    for i, kind, share in case['faults']:
        i %= len(case['tasks'])
        t, k = case['tasks'][i], share * counts[i] // 1000
        what = f'{t["what"]} met {kind} at line event {k} of {counts[i]}'
        try:
            with quiet():
                value = sched.at_line(call(world, t), k, raiser(kind))
        except (Interrupt, NoMemory):
            aborted += 1
        except Exception as exc:  # noqa: BLE001 - another error, but an error
            if isinstance(exc, Violation):
                raise
            aborted += 1
        else:
            same(value, alone[i], f'{what}, yet returned a value')
        for x, y in zip(world[2] + world[3], kept):
            require(np.array_equal(x, y), '%s: an array given was modified', what)
        for j in case['then']:
            j %= len(case['tasks'])
            with sut(f'{case["tasks"][j]["what"]} after: {what}'), quiet():
                value = call(world, case['tasks'][j])()
            same(value, alone[j], f'{case["tasks"][j]["what"]} after: {what}')
    rec(*{f[1] for f in case['faults']}, *{t['what'] for t in case['tasks']}, f'faults:{len(case["faults"])}', nontrivial=aborted > 0)


@st.composite
def cases(draw):
    case = draw(gen.system(nmin=1, nmax=4, dmax=3, mmax=1, tiles=(1,)))
    case['grids'] = draw(st.lists(st.lists(st.one_of(st.integers(0, 900), st.integers(1, 900)).map(float), min_size=1, max_size=4),
                                  min_size=1, max_size=3))
    k = draw(st.integers(1, 4))
    case['others'] = draw(st.lists(st.integers(0, 2), max_size=2))
    case['tasks'] = [{'what': draw(st.sampled_from(CALCS)), 'on': draw(st.integers(0, 2)), 'grid': draw(st.integers(0, 2))} for _ in range(k)]
    case['faults'] = [list(f) for f in draw(st.lists(st.tuples(st.integers(0, k - 1), st.sampled_from(sorted(KINDS)), st.integers(0, 999)),
                                                     min_size=1, max_size=4))]
    case['then'] = draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=3))
    return case


TESTS = [Test('faults', cases, check, 4000, 80000, rule='a calculation was aborted part-way')]
