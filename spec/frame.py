"""Reference for the finite element model and the results of a frame."""
import numpy as np


def divide(A, B, n):
    """n+1 equidistant points from A to B."""
    return [[a + (b - a) * i / n for a, b in zip(A, B)] for i in range(n + 1)]




def varying(d, coords, v1, v2, A, B, n):
    """Element loads of a load varying linearly over a member of n elements: fixed-end forces of its nodes."""
    pts = divide(A, B, n)
    out = [0] * (3 * n + 3)
    for i in range(n):
        qa = v1 + (v2 - v1) * i / n
        qb = v1 + (v2 - v1) * (i + 1) / n
        add_element(out, i, d, coords, qa, qb, pts[i], pts[i + 1])
    return out


def stepwise(d, coords, values, A, B):
    """Constant load of each element."""
    n = len(values)
    pts = divide(A, B, n)
    out = [0] * (3 * n + 3)
    for i in range(n):
        add_element(out, i, d, coords, values[i], values[i], pts[i], pts[i + 1])
    return out


def add_element(out, i, d, coords, qa, qb, A, B):
    f = line_load(d, coords, qa, qb, A, B)
    for j in range(6):
        out[3 * i + j] += f[j]


def line_load(d, coords, q1, q2, A, B):
    dx = B[0] - A[0]
    dy = B[1] - A[1]
    L = np.sqrt(dx ** 2 + dy ** 2)
    c = dx / L
    s = dy / L
    if coords == 'local':
        ax, ay = (1, 0) if d == 'x' else (0, 1)
    else:
        ax, ay = (c, -s) if d == 'x' else (s, c)
    p1 = ax * q1
    p2 = ax * q2
    w1 = ay * q1
    w2 = ay * q2
    f = [L / 6 * (2 * p1 + p2), L / 20 * (7 * w1 + 3 * w2), L ** 2 / 60 * (3 * w1 + 2 * w2),
         L / 6 * (p1 + 2 * p2), L / 20 * (3 * w1 + 7 * w2), -L ** 2 / 60 * (2 * w1 + 3 * w2)]
    return [c * f[0] - s * f[1], s * f[0] + c * f[1], f[2], c * f[3] - s * f[4], s * f[3] + c * f[4], f[5]]


def vector(n, parts, dofs):
    """Sum of the parts at their degrees of freedom."""
    out = [0] * n
    for p, d in zip(parts, dofs):
        for i in range(len(d)):
            out[d[i]] += p[i]
    return out


def factor(comb, kind, lead):
    """Load factor of EN 1990 used for frames."""
    if kind == 'dead':
        return 1.15 if comb == 'ULS' else 1.0
    psi = {'live': 0.7, 'snow': 0.7, 'wind': 0.6}
    g = 1.5 if comb == 'ULS' else 1.0
    if lead:
        return g
    return g * psi[kind]


def absmax(vals):
    """Value of greatest magnitude; the least one of two of equal magnitude."""
    lo = min(vals)
    hi = max(vals)
    if -lo >= hi:
        return lo
    return hi


def beam_uniform(E, A, I, L, q, H):
    """Simply supported beam of two elements with a uniform load q and an axial force H at its moving end."""
    w = 5 * q * L ** 4 / (384 * E * I)
    t = q * L ** 3 / (24 * E * I)
    u = H * L / (E * A)
    return {'M': q * L ** 2 / 8, 'V': q * L / 2, 'N': H, 'w': w, 't': t, 'u': u}
