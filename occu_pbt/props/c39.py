"""C39: copies of superpositions and contributions are equivalent and independent."""
import copy
import os
import pickle
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from .. import env, gen
from ..common import build, c_tol, close_cols, finite, heat, mixed, p_tol, probability, quiet, table
from ..core import Test, Violation, require, sut

COPIES = ['deepcopy', 'pickle2', 'pickle4', 'pickle5', 'pickle0', 'twice']


def duplicate(obj, how):
    if how == 'deepcopy':
        return copy.deepcopy(obj)
    if how == 'twice':
        return copy.deepcopy(pickle.loads(pickle.dumps(obj)))
    return pickle.loads(pickle.dumps(obj, int(how[-1])))


def results(sa, temp, n, what):
    p = finite(probability(sa, temp, n, what + ': occupation probability'), what + ': occupation probability')
    c = finite(heat(sa, temp, what + ': heat capacity'), what + ': heat capacity')
    with sut(what), quiet():
        w = table(sa.combine_contributions(np.maximum(temp, 1.0), np.sum, 'calc_part_func_w'), (n, len(temp)), what)
    return [np.asarray(x, dtype=np.longdouble) for x in (p, c, w)]


class World:
    def __init__(self, case):
        from occuprob.superpositions import SuperpositionApproximation
        self.case, self.new = case, SuperpositionApproximation
        self.n = gen.size_of(case)
        self.arr = gen.arrays(case)
        self.grids = [np.array(g, dtype=float) for g in case['grids']]
        with sut('construction'), quiet():
            self.pfs = [(k, gen.make_pf(k, self.arr)) for k in case['kinds']]
        self.tainted = set()         # contributions whose input arrays were overwritten
        self.sas = []                # [superposition, kinds added, contributions in it]
        self.add_sa([0, 1, 2])

    def add_sa(self, which):
        with sut('construction'), quiet():
            self.sas.append([self.new(), '', []])
        for i in which:
            if i < len(self.pfs):
                self.add(len(self.sas) - 1, i)

    def add(self, i, j):
        sa, kind_pf = self.sas[i % len(self.sas)], self.pfs[j % len(self.pfs)]
        with sut('adding a contribution'), quiet():
            sa[0].add_partition_functions(kind_pf[1])
        sa[1] += kind_pf[0]
        sa[2].append(kind_pf[1])

    def verify(self, i, g, when):
        sa, kinds, pfs = self.sas[i % len(self.sas)]
        if not kinds or any(id(p) in self.tainted for p in pfs):
            return False
        temp = self.grids[g % len(self.grids)]
        ref = dict(self.case, kinds=kinds)
        want = results(build(ref), temp, self.n, 'fresh superposition')
        got = results(sa, temp, self.n, f'superposition {i % len(self.sas) + 1} {when}')
        close_cols(got[0], want[0], p_tol(ref, temp) * len(kinds), f'occupation probability {when}')
        close_cols(got[1], want[1], c_tol(ref, temp) * len(kinds), f'heat capacity {when}')
        scale = 1 + np.abs(want[2]).max(axis=0).astype(float)
        close_cols(got[2], want[2], 1e-10 * scale, f'first derivative {when}')
        return mixed(want[0])


def check(case, rec):
    w = World(case)
    made, interesting = set(), False
    for op in case['ops']:
        name = op[0]
        if name == 'calc':
            interesting |= w.verify(op[1], op[2], 'before and after copying')
        elif name == 'new':
            w.add_sa(op[1])
        elif name == 'add':
            w.add(op[1], op[2])
        elif name == 'copy':
            sa, kinds, pfs = w.sas[op[1] % len(w.sas)]
            with sut(f'{op[2]} of a superposition'), quiet():
                other = duplicate(sa, op[2])
            # contributions of the copy are its own; whether clean is decided now
            w.sas.append([other, kinds, [p for p in pfs if id(p) in w.tainted]])
            made.add(op[2])
        elif name == 'copy pf':
            kind, pf = w.pfs[op[1] % len(w.pfs)]
            with sut(f'{op[2]} of a contribution'), quiet():
                other = duplicate(pf, op[2])
            if id(pf) in w.tainted:
                w.tainted.add(id(other))
            w.pfs.append((kind, other))
            made.add(op[2] + ' of a contribution')
        elif name == 'scribble':
            # the caller uses the arrays for something else; only copies made before are judged
            writable = [a for a in w.arr.values() if a.flags.writeable]
            for a in writable:
                a[...] = op[1]
            if writable:
                w.tainted.update(id(pf) for k, pf in w.pfs[:len(case['kinds'])])
                made.add('arrays overwritten')
    for i in range(len(w.sas)):
        for g in range(len(w.grids)):
            interesting |= w.verify(i, g, 'at the end')
    rec(*made, nontrivial=bool(made) and interesting)


@st.composite
def base(draw, **kw):
    case = draw(gen.system(nmin=1, nmax=4, dmax=4, mmax=1, tiles=(1,), zero=True, **kw))
    case['grids'] = draw(st.lists(st.lists(st.one_of(st.integers(0, 1200), st.integers(20, 900)).map(float), min_size=1, max_size=4),
                                  min_size=1, max_size=2))
    return case


@st.composite
def cases(draw):
    case = draw(base())
    how = st.sampled_from(COPIES)
    at = st.integers(0, 5)
    op = st.one_of(st.tuples(st.just('calc'), at, st.integers(0, 1)), st.tuples(st.just('copy'), at, how),
                   st.tuples(st.just('copy'), at, how), st.tuples(st.just('copy pf'), at, how),
                   st.tuples(st.just('add'), at, st.integers(0, 5)),
                   st.tuples(st.just('new'), st.lists(st.integers(0, 4), min_size=1, max_size=3)),
                   st.tuples(st.just('scribble'), st.sampled_from([1, 2, 7])))
    case['ops'] = [list(o) for o in draw(st.lists(op, min_size=2, max_size=8))]
    return case


CHILD = '''
import pickle, sys
sys.path.insert(0, sys.argv[1])
import numpy as np
data = pickle.load(sys.stdin.buffer)
sa, grids = pickle.loads(data['object']), data['grids']
out = [(sa.calc_probability(t), sa.calc_heat_capacity(t)) for t in grids]
sys.stdout.flush()
with open(sys.argv[2], 'wb') as fh:
    pickle.dump(([(np.asarray(p, dtype=np.longdouble), np.asarray(c, dtype=np.longdouble)) for p, c in out], pickle.dumps(sa)), fh)
'''


def check_process(case, rec):
    """There and back: a superposition made here, used in another process, returned from it."""
    from ..clirun import workdir
    n, temps = gen.size_of(case), [np.array(g, dtype=float) for g in case['grids']]
    sa = build(case)
    here = [(probability(sa, t, n), heat(sa, t)) for t in temps] if case['before'] else None
    with sut('pickling a superposition'), quiet():
        sent = pickle.dumps(sa, case['protocol'])
    with workdir() as wd:
        out = os.path.join(wd, 'out.pkl')
        e = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME')}
        if sys.pycache_prefix:
            e['PYTHONPYCACHEPREFIX'] = sys.pycache_prefix
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        r = subprocess.run([sys.executable, '-c', CHILD, env.REPO, out], input=pickle.dumps({'object': sent, 'grids': temps}),
                           capture_output=True, cwd=wd, env=e, timeout=140)
        if r.returncode or not os.path.exists(out):
            raise Violation(f'the restored superposition failed in another process: {r.stderr.decode()[-400:]}')
        with open(out, 'rb') as fh:
            there, back = pickle.load(fh)
    with sut('restoring a superposition'), quiet():
        again = pickle.loads(back)
    if here is None:
        here = [(probability(sa, t, n), heat(sa, t)) for t in temps]
    for t, (p, c), (p2, c2) in zip(temps, here, there):
        for what, x, y in (('in another process', p2, c2), ('returned from another process', probability(again, t, n), heat(again, t))):
            close_cols(x, p, p_tol(case, t), f'occupation probability {what}')
            close_cols(y, c, c_tol(case, t), f'heat capacity {what}')
    require(np.all(np.isfinite(np.asarray(here[0][0], dtype=float))), 'not finite')
    rec('used before' if case['before'] else 'fresh', f"kinds:{''.join(sorted(case['kinds']))}",
        nontrivial=any(mixed(p) for p, _ in here))


@st.composite
def process_cases(draw):
    case = draw(base())
    case.update(before=draw(st.booleans()), protocol=draw(st.integers(0, 5)))
    return case


TESTS = [
    Test('history', cases, check, 4000, 80000, rule='something was copied or overwritten and isomers share population'),
    Test('other-process', process_cases, check_process, 32, 600, rule='isomers share population'),
]
