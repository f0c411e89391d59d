"""Helpers shared by the property modules."""
import contextlib
import io

import numpy as np

from .core import Violation, require, sut


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints; yields the buffer."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        yield buf


def table(value, shape, what):
    """The value as an array of the given shape, or a violation."""
    if value is None:
        raise Violation(f'{what}: no result')
    try:
        arr = np.asarray(value)
    except Exception as exc:
        raise Violation(f'{what}: not an array ({exc})') from exc
    require(arr.shape == tuple(shape), '%s: shape %s, expected %s', what, arr.shape, tuple(shape))
    require(np.issubdtype(arr.dtype, np.floating) or np.issubdtype(arr.dtype, np.integer),
            '%s: dtype %s is not real', what, arr.dtype)
    return arr


def finite(arr, what):
    require(bool(np.all(np.isfinite(arr))), '%s: not finite: %s', what, arr)
    return arr


def probability(sa, temp, n, what='occupation probability'):
    with sut(what), quiet():
        res = sa.calc_probability(temp)
    return table(res, (n, len(temp)), what)


def heat(sa, temp, what='heat capacity'):
    with sut(what), quiet():
        res = sa.calc_heat_capacity(temp)
    return table(res, (1, len(temp)), what)


def average(sa, temp, obs, what='ensemble average'):
    with sut(what), quiet():
        res = sa.calc_ensemble_average(temp, obs)
    return table(res, (1, len(temp)), what)


def build(case, arr=None):
    from . import gen
    with sut('building the superposition'), quiet():
        return gen.build(case, arr)


def close(a, b, rtol, atol, what):
    a = np.asarray(a, dtype=np.longdouble)
    b = np.asarray(b, dtype=np.longdouble)
    require(a.shape == b.shape, '%s: shapes %s and %s', what, a.shape, b.shape)
    with np.errstate(invalid='ignore'):
        diff = np.abs(a - b)
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        ok = same | (diff <= atol + rtol * np.abs(b))
    if not np.all(ok):
        i = tuple(int(k) for k in np.argwhere(~ok)[0])
        raise Violation(f'{what}: {a[i]!r} differs from {b[i]!r} at {i} (rtol {rtol}, atol {atol})')


def mixed(p, low=1e-6):
    """Some isomer is neither empty nor alone."""
    p = np.asarray(p)
    return bool(np.any((p > low) & (p < 1 - low)))


def spread(case, ts):
    """Largest energy (relative to the lowest isomer, zero-point energy included) over kT,
    at each temperature; 0 K is evaluated at 1e-6 K here as a conservative scale."""
    e = 0.0
    if case['E'] is not None:
        e += max(case['E']) - min(case['E'])
    if 'Q' in case['kinds']:
        e += case['tile'] * 4.135667696e-3 * max(sum(r) for r in case['F'])
    t = np.maximum(np.array(ts, dtype=float), 1e-6)
    return e / (8.617333262145e-5 * t)


def p_tol(case, ts, extra=0.0):
    """Admissible difference of probabilities between two sound evaluations of the same model."""
    return 1e-9 + 1e-14 * spread(case, ts) + extra


def c_tol(case, ts, extra=0.0):
    """The same for heat capacities."""
    modes = 0 if case['F'] is None else len(case['F'][0]) * case['tile']
    return 1e-8 * (1 + modes) + (1e-13 * spread(case, ts) + extra) * (20 + modes)


def close_cols(a, b, tol, what):
    """|a-b| <= tol, one tolerance per column."""
    a, b = np.asarray(a, dtype=np.longdouble), np.asarray(b, dtype=np.longdouble)
    require(a.shape == b.shape, '%s: shapes %s and %s', what, a.shape, b.shape)
    tol = np.broadcast_to(np.asarray(tol, dtype=float), a.shape[-1:])
    with np.errstate(invalid='ignore'):
        bad = ~(np.abs(a - b) <= tol)
    if np.any(bad):
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation(f'{what}: {a[i]!r} differs from {b[i]!r} at {i} (tolerance {tol[i[-1]]:.1e})')
