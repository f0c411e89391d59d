"""Process set-up: where Hypothesis comes from, where the code under test comes from.

The checks run under /opt/venv (the interpreter OccuProb is installed for).  Hypothesis
is taken from the verification tools, through a finder restricted to it and its
dependencies, so that nothing else of that environment becomes visible to the code
under test.
"""
import importlib.machinery
import os
import sys
import tempfile
import warnings

REPO = os.environ.get('OCCUPROB_REPO', '/repo')     # overridden only when developing
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
BORROWED = {'hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector',
            '_hypothesis_pytestplugin', 'sortedcontainers', 'attr', 'attrs'}

THREAD_ENV = {'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONHASHSEED': '0',
              'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'MPLBACKEND': 'Agg'}


class _Borrow:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in BORROWED:
            return importlib.machinery.PathFinder.find_spec(name, [VT_SITE])
        return None


class HarnessError(Exception):
    """Something the check needs is missing or wrong: neither pass nor violation."""


_ready = False


def bootstrap(scratch):
    """Import third-party packages, then the code under test from REPO's working tree.

    Stale bytecode must not stand in for the working tree, so occuprob's modules are
    compiled from source: the bytecode cache is pointed at an empty directory.
    """
    global _ready
    if _ready:
        return
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
    sys.meta_path.append(_Borrow)
    import numpy  # noqa: F401
    import mpmath  # noqa: F401
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa: F401
    import ase.io  # noqa: F401
    import ase.io.extxyz  # noqa: F401
    import pymatgen.core.structure  # noqa: F401
    import pymatgen.symmetry.analyzer  # noqa: F401
    import hypothesis  # noqa: F401
    sys.pycache_prefix = os.path.join(scratch, 'pyc')
    sys.path.insert(0, REPO)
    for name in [m for m in sys.modules if m.split('.')[0] == 'occuprob']:
        del sys.modules[name]
    import occuprob
    import occuprob.cli  # noqa: F401
    where = os.path.dirname(os.path.abspath(occuprob.__file__))
    if where != os.path.join(os.path.abspath(REPO), 'occuprob'):
        raise HarnessError(f'occuprob imported from {where}, not from {REPO}')
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
    _ready = True


def make_scratch(tag):
    base = os.environ.get('OCCU_PBT_TMP') or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix=f'occu_pbt_{tag}_', dir=base)
