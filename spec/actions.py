"""EN 1991-1-4 wind actions (with the Finnish annex for terrain 0) and load combinations of EN 1990 (Finnish annex)."""
import math

Z0 = {0: 0.003, 1: 0.01, 2: 0.05, 3: 0.3, 4: 1.0}
ZMIN = {0: 1, 1: 1, 2: 2, 3: 5, 4: 10}


def log_height(z, cat):
    return math.log(max(z, ZMIN[cat]) / Z0[cat])


def roughness(z, cat):
    if cat == 0:
        return 0.18 * log_height(z, cat)
    return 0.19 * (Z0[cat] / 0.05) ** 0.07 * log_height(z, cat)


def turbulence(z, cat):
    return 1 / log_height(z, cat)


def mean_velocity(vb, z, cat):
    return vb * roughness(z, cat)


def peak_pressure(z, cat, vb):
    v = mean_velocity(vb, z, cat)
    return (1 + 7 * turbulence(z, cat)) * 0.5 * 1.25 * v * v


def velocity_pressure(v, rho):
    return 0.5 * rho * v ** 2


def between(x, x0, x1, y0, y1):
    return y0 + (y1 - y0) / (x1 - x0) * (x - x0)


def walls(length, width, h, qp, direction):
    """Table 7.1 and Figure 7.5, wall area above 10 m2."""
    b, d = (length, width) if direction == 'long' else (width, length)
    e = min(b, 2 * h)
    if e < d:
        n = [e / 5, 4 * e / 5, d - e]
    elif e < 5 * d:
        n = [e / 5, d - e / 5, 0]
    else:
        n = [d, 0, 0]
    s = h / d
    if s >= 5:
        cd, ce = 0.8, -0.7
    elif s >= 1:
        cd, ce = 0.8, between(s, 1, 5, -0.5, -0.7)
    elif s >= 0.25:
        cd, ce = between(s, 0.25, 1, 0.7, 0.8), between(s, 0.25, 1, -0.3, -0.5)
    else:
        cd, ce = 0.7, -0.3
    res = {}
    for k, ln, c in [('A', n[0], -1.2), ('B', n[1], -0.8), ('C', n[2], -0.5), ('D', b, cd), ('E', b, ce)]:
        res[k] = {'length': ln, 'cpe': c, 'we': qp * c}
    return res


def flat_roof(d, b, h, qp):
    """Table 7.2 (sharp eaves) and Figure 7.6: length across and width along the wind."""
    e = min(b, 2 * h)
    return {'F': {'length': e / 4, 'width': e / 10, 'cpe': -1.8, 'we': -1.8 * qp},
            'G': {'length': b - e / 2, 'width': e / 10, 'cpe': -1.2, 'we': -1.2 * qp},
            'H': {'length': b, 'width': e / 2 - e / 10, 'cpe': -0.7, 'we': -0.7 * qp},
            'I': {'length': b, 'width': d - e / 2, 'cpe': [0.2, -0.2], 'we': [0.2 * qp, -0.2 * qp]}}


# Table 7.3a, (zone, size): values at 5, 15, 30, 45, 60 and 75 degrees; negative and positive
ANGLES = [5, 15, 30, 45, 60, 75]
MONO0 = {('F', 'cpe10'): ([-1.7, -0.9, -0.5, 0.0], [0.0, 0.2, 0.7, 0.7, 0.7, 0.8]),
         ('F', 'cpe1'): ([-2.5, -2.0, -1.5, 0.0], [0.0, 0.2, 0.7, 0.7, 0.7, 0.8]),
         ('G', 'cpe10'): ([-1.2, -0.8, -0.5, 0.0], [0.0, 0.2, 0.7, 0.7, 0.7, 0.8]),
         ('G', 'cpe1'): ([-2.0, -1.5, -1.5, 0.0], [0.0, 0.2, 0.7, 0.7, 0.7, 0.8]),
         ('H', 'cpe10'): ([-0.6, -0.3, -0.2, 0.0], [0.0, 0.2, 0.4, 0.6, 0.7, 0.8]),
         ('H', 'cpe1'): ([-1.2, -0.3, -0.2, 0.0], [0.0, 0.2, 0.4, 0.6, 0.7, 0.8])}
MONO180 = {('F', 'cpe10'): [-2.3, -2.5, -1.1, -0.6, -0.5, -0.5],
           ('F', 'cpe1'): [-2.5, -2.8, -2.3, -1.3, -1.0, -1.0],
           ('G', 'cpe10'): [-1.3, -1.3, -0.8, -0.5, -0.5, -0.5],
           ('G', 'cpe1'): [-2.0, -2.0, -1.5, -0.5, -0.5, -0.5],
           ('H', 'cpe10'): [-0.8, -0.9, -0.8, -0.7, -0.5, -0.5],
           ('H', 'cpe1'): [-1.2, -1.2, -0.8, -0.7, -0.5, -0.5]}


def in_table(ys, i, a):
    """Value at a in interval i of the table."""
    return between(a, ANGLES[i], ANGLES[i + 1], ys[i], ys[i + 1])


def mono(direction, zone, size, i, a):
    """Angle a in interval i (5: 75 degrees and more)."""
    if direction == 180:
        ys = MONO180[(zone, size)]
        return ys[5] if i == 5 else in_table(ys, i, a)
    neg, pos = MONO0[(zone, size)]
    if i == 5:
        return pos[5]
    if i == 4:
        return in_table(pos, i, a)
    if i == 3:
        return [0, in_table(pos, i, a)]
    return [in_table(neg, i, a), in_table(pos, i, a)]


# ------------------------------------------------------------------ combinations
PSI = {'A': [0.7, 0.5, 0.3], 'B': [0.7, 0.5, 0.3], 'C': [0.7, 0.7, 0.3], 'D': [0.7, 0.7, 0.6], 'E': [1, 0.9, 0.8]}
KFI = {1: 0.9, 2: 1, 3: 1.1}


def psi(kind, value, cls):
    """Combination factors of a variable load."""
    if kind == 'snow':
        if value < 2.75:
            return [0.7, 0.4, 0.2]
        return [0.7, 0.5, 0.2]
    if kind == 'wind':
        return [0.6, 0.2, 0]
    return PSI[cls]


def prepare(loads, cls, spacing, reduce_length):
    """-> permanent [(value, direction, ids)], variable [(kind, value, factors, direction, ids)] line loads."""
    perm = []
    var = []
    for kind, value, direction, ids in loads:
        if kind == 'load':
            perm.append([value, direction, ids])
        elif kind == 'area':
            perm.append([value * spacing, direction, ids])
        else:
            f = psi(kind, value, cls)
            v = value * spacing
            if kind == 'imposed' and reduce_length is not None and cls != 'E':
                v = v * max(0.7, min(1, 5 * f[0] / 7 + 10 / (spacing * reduce_length)))
            var.append([kind, v, f, direction, ids])
    return perm, var


def member_loads(perm, var, gf, fs, n):
    """Line loads per direction and id for factor gf of permanent and fs of variable loads; None: no load."""
    res = {}
    for d in ('x', 'y'):
        vals = []
        for i in range(n):
            tot = 0
            hit = False
            for v, dd, ids in perm:
                if i in ids:
                    hit = True
                    if dd == d:
                        tot += gf * v
            for j in range(len(var)):
                if i in var[j][4]:
                    hit = True
                    if var[j][3] == d:
                        tot += fs[j] * var[j][1]
            vals.append(tot if hit else None)
        res[d] = vals
    return res


def total(perm, var, gf, fs):
    s = 0
    for v, dd, ids in perm:
        s += gf * v
    for j in range(len(var)):
        s += fs[j] * var[j][1]
    return s


def candidates(state, perm, var, cc):
    """(permanent factor, factors of the variable loads) of every combination."""
    n = len(var)
    out = []
    if state == 'uls':
        k = KFI[cc]
        out.append([1.35 * k, [0] * n])
        for i in range(n):
            out.append([1.15 * k, [1.5 * k if j == i else 1.5 * k * var[j][2][0] for j in range(n)]])
    elif state == 'char':
        for i in range(n):
            out.append([1, [1 if j == i else var[j][2][0] for j in range(n)]])
    elif state == 'freq':
        for i in range(n):
            out.append([1, [var[j][2][1] if j == i else var[j][2][2] for j in range(n)]])
    elif state == 'quasi':
        out.append([1, [var[j][2][2] for j in range(n)]])
    elif state == 'acc':
        for i in range(n):
            out.append([1, [var[j][2][1] if j == i and var[j][0] in ('snow', 'wind') else var[j][2][2] for j in range(n)]])
        out.append([1, [0] * n])
    if not out:
        out.append([1, []])
    return out


def governing(state, perm, var, cc):
    c = candidates(state, perm, var, cc)
    best = c[0]
    for x in c[1:]:
        if total(perm, var, x[0], x[1]) > total(perm, var, best[0], best[1]):
            best = x
    return best


def totals(state, loads, cls, cc, spacing, reduce_length=None):
    """Sum of the loads in every combination."""
    perm, var = prepare(loads, cls, spacing, reduce_length)
    return [total(perm, var, x[0], x[1]) for x in candidates(state, perm, var, cc)]


def flat(res, n):
    """Loads in x and y of each id, 0 where there is none."""
    out = []
    for d in ('x', 'y'):
        for i in range(n):
            v = 0
            if i < len(res[d]):
                if res[d][i] is not None:
                    v = res[d][i]
            out.append(v)
    return out


def combine(state, loads, cls, cc, spacing, n, reduce_length=None):
    perm, var = prepare(loads, cls, spacing, reduce_length)
    g = governing(state, perm, var, cc)
    return flat(member_loads(perm, var, g[0], g[1], n), n)


def split(state, loads, cls, cc, spacing, n):
    """Share of the permanent and of the variable loads."""
    perm, var = prepare(loads, cls, spacing, None)
    g = governing(state, perm, var, cc)
    return [flat(member_loads(perm, [], g[0], [], n), n), flat(member_loads([], var, 0, g[1], n), n)]


def split_of(res, n):
    """The same from the parts G, Q1 and Qi."""
    g = [0] * (2 * n)
    q = [0] * (2 * n)
    if 'G' in res:
        g = flat(res['G'], n)
    for part in ('Q1', 'Qi'):
        if part in res:
            q = [a + b for a, b in zip(q, flat(res[part], n))]
    return [g, q]


def psi_value(kind, v, i):
    return v * psi(kind, v, 'A')[i]
