"""Reference model: the documented partition functions in arbitrary precision.

Written from the documentation, independently of the code under test:

  electronic   g_a exp(-E_a/kT)                       (g_a = 1 for the spinless variant)
  classical    prod_i (h nu_i / kT)^-1
  quantum      prod_i exp(-h nu_i/2kT) / (1 - exp(-h nu_i/kT))
  rotational   sqrt(I1 I2 I3) / sigma * (kT)^(3/2)    (a vanishing moment counts as 1)
"""
import mpmath as mp

KB = mp.mpf('8.617333262145e-5')    # eV/K
H = mp.mpf('4.135667696e-3')        # eV/THz
ZERO_MOMENT = 1e-6                  # relative; generated moments stay far from it


def mpf(x):
    """Exact conversion, extended precision included."""
    hi = float(x)
    if mp.isinf(hi):
        return mp.mpf(hi)
    return mp.mpf(hi) + mp.mpf(float(x - hi)) if not isinstance(x, (int, float)) else mp.mpf(x)


class System:
    """Isomer data plus the chosen contributions; values are plain floats/ints."""

    def __init__(self, kinds, energies, spins, freqs, sigmas, moments, tile=1):
        self.kinds = list(kinds)
        self.energies, self.spins = energies, spins
        self.freqs, self.tile = freqs, tile
        self.sigmas, self.moments = sigmas, moments
        self.n = next(len(x) for x in (energies, freqs, sigmas) if x is not None)

    def modes(self):
        return len(self.freqs[0]) * self.tile

    # -- temperature-independent parts -------------------------------------------------
    def prepare(self):
        if hasattr(self, '_static'):
            return
        e0 = [mp.mpf(0)] * self.n       # ground-state energies
        stat = [mp.mpf(0)] * self.n     # logarithms of constant weights
        power = mp.mpf(0)               # Z ~ T**power from classical degrees of freedom
        emin = min(map(mp.mpf, self.energies)) if self.energies is not None else mp.mpf(0)
        for kind in self.kinds:
            for a in range(self.n):
                if kind in 'ES':
                    e0[a] += mp.mpf(self.energies[a]) - emin
                    if kind == 'S':
                        stat[a] += mp.log(mp.mpf(self.spins[a]))
                elif kind == 'C':
                    stat[a] -= self.tile * mp.fsum(mp.log(H * mp.mpf(f)) for f in self.freqs[a])
                elif kind == 'Q':
                    e0[a] += self.tile * mp.fsum(H * mp.mpf(f) / 2 for f in self.freqs[a])
                elif kind == 'R':
                    big = max(self.moments[a])
                    prod = mp.mpf(1)
                    for m in self.moments[a]:
                        if m > ZERO_MOMENT * big:
                            prod *= mp.mpf(m)
                    stat[a] += mp.log(mp.sqrt(prod) / mp.mpf(self.sigmas[a]))
            if kind == 'C':
                power += self.modes()
            elif kind == 'R':
                power += mp.mpf(3) / 2
        self._static = (e0, stat, power)

    def ground_energies(self):
        self.prepare()
        return self._static[0]

    def static_logs(self):
        self.prepare()
        return self._static[1]

    # -- logarithms of the weights at beta ---------------------------------------------
    def log_weights(self, beta):
        self.prepare()
        e0, stat, power = self._static
        nq = sum(1 for k in self.kinds if k == 'Q')
        common = -power * mp.log(beta)
        out = []
        for a in range(self.n):
            ln = stat[a] - beta * e0[a] + common
            if nq:
                s = mp.mpf(0)
                for f in self.freqs[a]:
                    x = beta * H * mp.mpf(f)
                    if x < 700:
                        s += mp.log(-mp.expm1(-x))
                    else:
                        s -= mp.exp(-x)
                ln -= nq * self.tile * s
            out.append(ln)
        return out

    def ln_z(self, beta):
        logs = self.log_weights(beta)
        top = max(logs)
        return top + mp.log(mp.fsum(mp.exp(x - top) for x in logs))


def beta_of(t):
    return 1 / (KB * mp.mpf(t))


def error_logs(system, t):
    """Admissible absolute error of each log-weight in a sound implementation:
    the last digits of the physical constants (CODATA's exact values differ from the
    rounded ones by 2.3e-10 relative), and rounding of the terms that are summed."""
    beta = beta_of(t)
    e0 = system.ground_energies()
    low = min(e0)
    out = []
    for a in range(system.n):
        spread = beta * (e0[a] - low)
        size = beta * e0[a]
        modes = system.modes() if system.freqs is not None else 0
        out.append(mp.mpf('1e-11') + mp.mpf('1e-13') * modes + mp.mpf('1e-9') * abs(spread)
                   + mp.mpf('4e-15') * abs(size))
    # quantum factors also move with the constants at small beta: d ln(1-e^-x) ~ eps
    if 'Q' in system.kinds:
        out = [o + mp.mpf('1e-9') * 2 for o in out]
    return out


def probabilities(system, t):
    """(reference, lower bound, upper bound) for each isomer."""
    with mp.workdps(40):
        logs = system.log_weights(beta_of(t))
        errs = error_logs(system, t)
        top = max(logs)
        rel = [x - top for x in logs]
        w = [mp.exp(x) for x in rel]
        z = mp.fsum(w)
        ref, lo, hi = [], [], []
        up = [mp.exp(x + e) for x, e in zip(rel, errs)]
        dn = [mp.exp(x - e) for x, e in zip(rel, errs)]
        for a in range(system.n):
            ref.append(w[a] / z)
            rest_up = mp.fsum(up[b] for b in range(system.n) if b != a)
            rest_dn = mp.fsum(dn[b] for b in range(system.n) if b != a)
            lo.append(dn[a] / (dn[a] + rest_up))
            hi.append(up[a] / (up[a] + rest_dn))
        return ref, lo, hi


def heat_capacity(system, t):
    """(reference, tolerance): beta^2 d^2 lnZ/d beta^2 by numerical differentiation of
    lnZ with respect to ln(beta), with 40 of 110 digits as the step."""
    with mp.workdps(110):
        h = mp.mpf(10) ** -35
        beta = beta_of(t)
        grow = mp.exp(h)
        f0 = system.ln_z(beta)
        f1 = system.ln_z(beta * grow)
        f2 = system.ln_z(beta / grow)
        first = (f1 - f2) / (2 * h)
        second = (f1 - 2 * f0 + f2) / h**2
        ref = second - first
    with mp.workdps(40):
        # sensitivity to admissible errors of the weights and to rounding of the averages
        errs = error_logs(system, t)
        logs = system.log_weights(beta)
        top = max(logs)
        w = [mp.exp(x - top) for x in logs]
        z = mp.fsum(w)
        p = [x / z for x in w]
        q = mp.exp(mp.mpf('1e-12'))
        up = system.log_weights(beta * q)
        dn = system.log_weights(beta / q)
        wa = [(u - d) / mp.mpf('2e-12') for u, d in zip(up, dn)]   # beta dlnZ_a/dbeta
        mean = mp.fsum(x * y for x, y in zip(p, wa))
        big = max((abs(x) for x, y in zip(wa, p) if y > mp.mpf('1e-40')), default=mp.mpf(0))
        modes = (system.modes() if system.freqs is not None else 0) + 4
        tol = mp.mpf('1e-9') + mp.mpf('1e-8') * abs(ref) + mp.mpf('4e-15') * big**2
        tol += mp.fsum(pa * (mp.exp(2 * min(e, 50)) - 1) * ((x - mean)**2 + modes)
                       for pa, e, x in zip(p, errs, wa)) * 4
        return ref, tol


def derivatives(system, t):
    """W = beta dlnZ_a/dbeta and V = beta^2 dW/dbeta (documented), per isomer."""
    with mp.workdps(110):
        h = mp.mpf(10) ** -35
        beta = beta_of(t)
        g = mp.exp(h)
        l0, l1, l2 = (system.log_weights(b) for b in (beta, beta * g, beta / g))
        w = [(a - b) / (2 * h) for a, b in zip(l1, l2)]
        v = [(a - 2 * o + b) / h**2 - x for a, o, b, x in zip(l1, l0, l2, w)]
        return w, v


def fast_parts(system, temps):
    """(ln Z, <E>/kT, own heat capacity) of each isomer at positive temperatures, in extended precision."""
    import numpy as np
    ld = np.longdouble
    t = np.asarray(temps, dtype=ld)
    kt = ld('8.617333262145e-5') * t
    h = ld('4.135667696e-3')
    n, m = system.n, len(t)
    logw, u, c = (np.zeros((n, m), dtype=ld) for _ in range(3))     # u = <E>/kT, c = own heat capacity
    for kind in system.kinds:
        if kind in 'ES':
            e = np.array(system.energies, dtype=ld)
            x = (e - e.min())[:, None] / kt
            logw -= x
            u += x
            if kind == 'S':
                logw += np.log(np.array(system.spins, dtype=ld))[:, None]
        elif kind in 'CQ':
            for f in np.array(system.freqs, dtype=ld).T:
                x = h * f[:, None] / kt
                if kind == 'C':
                    logw -= system.tile * np.log(x)
                    u += system.tile
                    c += system.tile
                else:
                    logw -= system.tile * (x / 2 + np.log(-np.expm1(-x)))
                    u += system.tile * (x / 2 + x * np.exp(-x) / -np.expm1(-x))
                    c += system.tile * x**2 * np.exp(-x) / np.expm1(-x)**2
        elif kind == 'R':
            w = np.array([np.prod([ld(i) for i in r if i > ZERO_MOMENT * max(r)]) for r in system.moments], dtype=ld)
            logw += (np.log(w) / 2 - np.log(np.array(system.sigmas, dtype=ld)))[:, None]
            u += ld(1.5)
            c += ld(1.5)
    return logw, u, c


def mixture(logw, u, c):
    """(P, C) of isomers of the given ln Z, <E>/kT and own heat capacities."""
    import numpy as np
    p = np.exp(logw - logw.max(axis=0))
    p /= p.sum(axis=0)
    mean = (p * u).sum(axis=0)
    return p, (p * (c + (u - mean)**2)).sum(axis=0)


def fast(system, temps):
    """(P, C) at positive temperatures in extended precision, all at once: the documented formulas."""
    return mixture(*fast_parts(system, temps))
