"""Molecules: constructed point groups, rigid motions, inertia, brute-force rotation counts.

Everything here is independent of the code under test, of ASE and of pymatgen.
"""
import itertools
import math

import numpy as np

# standard atomic weights
MASS = {'H': 1.008, 'He': 4.002602, 'Li': 6.94, 'Be': 9.0121831, 'B': 10.81, 'C': 12.011, 'N': 14.007, 'O': 15.999, 'F': 18.998403163,
        'Ne': 20.1797, 'Na': 22.98976928, 'Mg': 24.305, 'Al': 26.9815385, 'Si': 28.085, 'P': 30.973761998, 'S': 32.06, 'Cl': 35.45,
        'Ar': 39.948, 'Ti': 47.867, 'V': 50.9415, 'Cr': 51.9961, 'Mn': 54.938044, 'Fe': 55.845, 'Co': 58.933194, 'Ni': 58.6934,
        'Cu': 63.546, 'Zn': 65.38, 'As': 74.921595, 'Se': 78.971, 'Br': 79.904, 'Mo': 95.95, 'Ru': 101.07, 'Rh': 102.9055, 'Pd': 106.42,
        'Ag': 107.8682, 'Sn': 118.71, 'I': 126.90447, 'Xe': 131.293, 'Cs': 132.90545196, 'La': 138.90547, 'W': 183.84, 'Re': 186.207,
        'Os': 190.23, 'Ir': 192.217, 'Pt': 195.084, 'Au': 196.966569, 'Hg': 200.592, 'Pb': 207.2, 'Bi': 208.9804, 'Th': 232.0377,
        'U': 238.02891}
USUAL = ['Au', 'Br', 'C', 'Cl', 'Cu', 'F', 'H', 'N', 'O', 'Pt', 'Re', 'S', 'Si']
ELEMENTS = USUAL * 2 + sorted(set(MASS) - set(USUAL))


# -- rotations -----------------------------------------------------------------------------

def rot(axis, angle):
    x, y, z = np.asarray(axis, dtype=float) / np.linalg.norm(axis)
    c, s = math.cos(angle), math.sin(angle)
    k = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + s * k + (1 - c) * (k @ k)


def quaternion_rotation(q):
    q = np.asarray(q, dtype=float)
    n = np.linalg.norm(q)
    if n < 1e-6:
        return np.eye(3)
    w, x, y, z = q / n
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


PHI = (1 + math.sqrt(5)) / 2
INV = -np.eye(3)
SIG_H = np.diag([1.0, 1.0, -1.0])
SIG_V = np.diag([1.0, -1.0, 1.0])


def _cn(n):
    return rot([0, 0, 1], 2 * math.pi / n)


C2X = np.diag([1.0, -1.0, -1.0])
C3D = rot([1, 1, 1], 2 * math.pi / 3)
C5I = rot([0, 1, PHI], 2 * math.pi / 5)

GROUPS = {'C1': [], 'Cs': [SIG_H], 'Ci': [INV],
          'T': [C3D, np.diag([-1.0, -1.0, 1.0])], 'Th': [C3D, np.diag([-1.0, -1.0, 1.0]), INV],
          'Td': [C3D, np.diag([-1.0, -1.0, 1.0]), np.array([[0, 1.0, 0], [1, 0, 0], [0, 0, 1]])],
          'O': [C3D, rot([0, 0, 1], math.pi / 2)], 'Oh': [C3D, rot([0, 0, 1], math.pi / 2), INV],
          'I': [C3D, C5I], 'Ih': [C3D, C5I, INV]}
for _n in (2, 3, 4, 5, 6):
    GROUPS[f'C{_n}'] = [_cn(_n)]
    GROUPS[f'C{_n}v'] = [_cn(_n), SIG_V]
    GROUPS[f'C{_n}h'] = [_cn(_n), SIG_H]
    GROUPS[f'D{_n}'] = [_cn(_n), C2X]
    GROUPS[f'D{_n}h'] = [_cn(_n), C2X, SIG_H]
    # S(2n) axis along z together with C2 along x
    GROUPS[f'D{_n}d'] = [_cn(2 * _n) @ SIG_H, C2X]
GROUPS['S4'] = [_cn(4) @ SIG_H]
GROUPS['S6'] = [_cn(6) @ SIG_H]


def close_group(gens):
    ops = [np.eye(3)]
    todo = list(ops)
    while todo:
        a = todo.pop()
        for g in gens:
            b = a @ g
            if not any(np.abs(b - o).max() < 1e-6 for o in ops):
                ops.append(b)
                todo.append(b)
        if len(ops) > 130:
            raise ValueError('not a finite group')
    return ops


OPS = {}


def group(name):
    if name not in OPS:
        OPS[name] = close_group(GROUPS[name])
    return OPS[name]


def orbit(name, seed, tol=0.05):
    pts = []
    for op in group(name):
        p = op @ np.asarray(seed, dtype=float)
        if not any(np.linalg.norm(p - q) < tol for q in pts):
            pts.append(p)
    return pts


# -- geometry ------------------------------------------------------------------------------

def min_distance(pos):
    pos = np.asarray(pos)
    if len(pos) < 2:
        return math.inf
    d = np.linalg.norm(pos[:, None] - pos[None], axis=2)
    return d[np.triu_indices(len(pos), 1)].min()


def com(symbols, pos):
    m = np.array([MASS[s] for s in symbols])
    return (m[:, None] * pos).sum(axis=0) / m.sum()


def inertia(symbols, pos):
    """Principal moments about the centre of mass, ascending, in u*Angstrom^2."""
    m = np.array([MASS[s] for s in symbols], dtype=float)
    r = np.asarray(pos, dtype=float) - com(symbols, np.asarray(pos, dtype=float))
    tensor = np.zeros((3, 3))
    for mi, ri in zip(m, r):
        tensor += mi * (ri @ ri * np.eye(3) - np.outer(ri, ri))
    return np.sort(np.linalg.eigvalsh(tensor))


def is_linear(pos, tol=1e-6):
    pos = np.asarray(pos) - np.mean(pos, axis=0)
    s = np.linalg.svd(pos, compute_uv=False)
    return len(pos) < 3 or s[1] < tol * max(1.0, s[0])


# -- brute force: proper rotations mapping a molecule onto itself ---------------------------

def _kabsch(a, b, det=1.0):
    """Proper (det 1) or improper (det -1) orthogonal R minimising |R a - b|."""
    u, _, vt = np.linalg.svd(b.T @ a)
    d = det * np.sign(np.linalg.det(u @ vt))
    return u @ np.diag([1, 1, d]) @ vt


def _match(rotated, pos, groups, tol):
    """Permutation p with |rotated[i]-pos[p[i]]| <= tol within elements, or None (greedy, which is
    unambiguous while tol is below half the smallest distance between equal atoms)."""
    perm = np.full(len(pos), -1)
    for idx in groups:
        d = np.linalg.norm(rotated[idx][:, None] - pos[idx][None], axis=2)
        j = d.argmin(axis=1)
        if np.any(d[np.arange(len(idx)), j] > tol) or len(set(j.tolist())) != len(idx):
            return None
        perm[idx] = np.asarray(idx)[j]
    return tuple(perm.tolist())


def proper_rotations(symbols, pos, tol, improper=False):
    """Number of distinct atom permutations induced by proper rotations within tol (non-linear);
    by improper operations instead, for molecules that are not planar."""
    pos = np.asarray(pos, dtype=float)
    pos = pos - com(symbols, pos)
    symbols = list(symbols)
    groups = [[i for i, s in enumerate(symbols) if s == e] for e in sorted(set(symbols))]
    norm = np.linalg.norm(pos, axis=1)

    def cands(i):
        return [j for j in range(len(pos)) if symbols[j] == symbols[i] and abs(norm[i] - norm[j]) <= 2 * tol]

    det = -1.0 if improper else 1.0
    if math.prod(math.factorial(len(g)) for g in groups) <= 720:
        # every permutation within elements
        count, perm = 0, np.arange(len(pos))
        for choice in itertools.product(*(itertools.permutations(g) for g in groups)):
            for g, c in zip(groups, choice):
                perm[g] = c
            if np.abs(norm - norm[perm]).max() <= 2 * tol:
                r = _kabsch(pos, pos[perm], det)
                count += bool(np.linalg.norm(pos @ r.T - pos[perm], axis=1).max() <= tol)
        return count
    # the reference pair: well away from a common line through the centre, with few candidate images
    pairs = []
    for i, j in itertools.permutations(range(len(pos)), 2):
        if norm[j] > 0.3 and norm[i] >= norm[j]:
            pairs.append((np.linalg.norm(np.cross(pos[i], pos[j])) / norm[i], i, j))
    if not pairs or max(pairs)[0] < 0.3:
        return None
    top = max(pairs)[0]
    best = None
    for off, i, j in pairs:
        if off >= 0.7 * top:
            cost = (len(cands(i)) * len(cands(j)), -off)
            if best is None or cost < best[0]:
                best = (cost, i, j)
    _, i, j = best
    frame = _frame(pos[i], pos[j])
    found = set()
    for a in cands(i):
        for b in cands(j):
            if a == b:
                continue
            if abs(np.linalg.norm(pos[i] - pos[j]) - np.linalg.norm(pos[a] - pos[b])) > 2 * tol:
                continue
            if np.linalg.norm(np.cross(pos[a], pos[b])) < 1e-2:
                continue
            r = _frame(pos[a], pos[b]) @ np.diag([1, 1, det]) @ frame.T
            # generous matching first, then the best rotation for that matching
            perm = _match(pos @ r.T, pos, groups, max(4 * tol, 0.05))
            if perm is None or perm in found:
                continue
            r = _kabsch(pos, pos[list(perm)], det)
            if np.linalg.norm(pos @ r.T - pos[list(perm)], axis=1).max() <= tol:
                found.add(perm)
    return len(found)


def _frame(a, b):
    x = a / np.linalg.norm(a)
    z = np.cross(a, b)
    z = z / np.linalg.norm(z)
    return np.column_stack([x, np.cross(z, x), z])


# -- ready-made molecules ------------------------------------------------------------------

def _poly(kind):
    a = 1.6
    if kind == 'triangle':
        return [[a * math.cos(t), a * math.sin(t), 0] for t in (0, 2 * math.pi / 3, 4 * math.pi / 3)]
    if kind == 'square':
        return [[a, 0, 0], [0, a, 0], [-a, 0, 0], [0, -a, 0]]
    if kind == 'tetrahedron':
        return [[a, a, a], [a, -a, -a], [-a, a, -a], [-a, -a, a]]
    if kind == 'octahedron':
        return [[2, 0, 0], [-2, 0, 0], [0, 2, 0], [0, -2, 0], [0, 0, 2], [0, 0, -2]]
    if kind == 'bipyramid':
        return _poly('triangle') + [[0, 0, 2.3], [0, 0, -2.3]]
    if kind == 'pyramid':
        return _poly('square') + [[0, 0, 1.9]]
    if kind == 'cube':
        return [[x, y, z] for x in (a, -a) for y in (a, -a) for z in (a, -a)]
    if kind == 'icosahedron':
        out = []
        for s in (1, -1):
            for t in (PHI, -PHI):
                out += [[0, s, t], [s, t, 0], [t, 0, s]]
        return (1.4 * np.array(out)).tolist()
    if kind == 'kite':
        return [[0, 0, 0], [2.4, 0, 0], [0.9, 2.2, 0.0], [0.3, 0.8, 2.5], [2.9, 1.9, 1.6]]
    raise KeyError(kind)


# name -> (symbols, positions, symmetry order or None for linear)
CURATED = {
    'Pt3': (['Pt'] * 3, _poly('triangle'), 6),
    'Pt4 square': (['Pt'] * 4, _poly('square'), 8),
    'Au4 tetrahedron': (['Au'] * 4, _poly('tetrahedron'), 12),
    'Cu6 octahedron': (['Cu'] * 6, _poly('octahedron'), 24),
    'Pt5 bipyramid': (['Pt'] * 5, _poly('bipyramid'), 6),
    'Pt5 pyramid': (['Pt'] * 5, _poly('pyramid'), 4),
    'Cu8 cube': (['Cu'] * 8, _poly('cube'), 24),
    'Au12 icosahedron': (['Au'] * 12, _poly('icosahedron'), 60),
    'Pt5 irregular': (['Pt'] * 5, _poly('kite'), 1),
    'RePt4': (['Re', 'Pt', 'Pt', 'Pt', 'Pt'], _poly('kite'), 1),
    'Pt4Re pyramid': (['Pt', 'Pt', 'Pt', 'Pt', 'Re'], _poly('pyramid'), 4),
    'Pt4Re bipyramid': (['Pt', 'Pt', 'Pt', 'Pt', 'Re'], _poly('bipyramid'), 3),
    'H2O': (['O', 'H', 'H'], [[0, 0, 0], [0.96, 0, 0], [-0.24, 0.93, 0]], 1),    # unequal bonds: see below
}
_t = math.radians(104.5)
CURATED['H2O'] = (['O', 'H', 'H'], [[0, 0, 0], [0.96, 0, 0], [0.96 * math.cos(_t), 0.96 * math.sin(_t), 0]], 2)
CURATED['CHFClBr'] = (['C', 'H', 'F', 'Cl', 'Br'],
                      [[0, 0, 0], [0.63, 0.63, 0.63], [0.8, -0.8, -0.8], [-1.02, 1.02, -1.02], [-1.1, -1.1, 1.1]], 1)
CURATED['CH4'] = (['C'] + ['H'] * 4,
                  [[0, 0, 0]] + [[0.63 * x for x in v] for v in ([1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1])], 12)
CURATED['NH3'] = (['N'] + ['H'] * 3, [[0, 0, 0.38]] + [[0.94 * math.cos(x), 0.94 * math.sin(x), 0]
                                                       for x in (0, 2 * math.pi / 3, 4 * math.pi / 3)], 3)

LINEAR = {
    'CO': (['C', 'O'], [[0, 0, 0], [0, 0, 1.13]]),
    'H2': (['H', 'H'], [[0, 0, 0], [0, 0, 0.74]]),
    'HCN': (['H', 'C', 'N'], [[0, 0, 0], [0, 0, 1.06], [0, 0, 2.22]]),
    'CO2': (['O', 'C', 'O'], [[0, 0, -1.16], [0, 0, 0], [0, 0, 1.16]]),
    'C2H2': (['H', 'C', 'C', 'H'], [[0, 0, -1.66], [0, 0, -0.6], [0, 0, 0.6], [0, 0, 1.66]]),
    'Cu3': (['Cu'] * 3, [[0, 0, -2.3], [0, 0, 0], [0, 0, 2.3]]),
    'Au4': (['Au'] * 4, [[0, 0, -3.9], [0, 0, -1.2], [0, 0, 1.4], [0, 0, 4.0]]),
}


def moved(pos, quat, shift, mirror=False):
    pos = np.asarray(pos, dtype=float)
    if mirror:
        pos = pos * np.array([1.0, 1.0, -1.0])
    return pos @ quaternion_rotation(quat).T + np.asarray(shift, dtype=float)
