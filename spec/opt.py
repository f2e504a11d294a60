"""Reference for optimisation problems: what the variables, functions and approximations mean."""
import math


def full(x, lock):
    """All variables: free ones from x in order, locked ones at their values."""
    out = []
    i = 0
    for j in range(3):
        v = None
        for k, w in lock:
            if k == j:
                v = w
        if v is None:
            v = x[i]
            i += 1
        out.append(v)
    return out


def fun(c, v, r):
    y = c[0] + c[1] * v[0] + c[2] * v[1] + c[3] * v[0] * v[2]
    if r is not None:
        y = y + c[4] * r[0] + c[5] * r[1] * r[2]
    return y


def objective(x, c, kind, lock, neg):
    v = full(x, lock)
    f = fun(c, v, v)
    if kind == 'MAX':
        f = -f
    if neg:
        f = -f
    return [f] + v + v


def linear_objective(x, c, kind, lock):
    v = full(x, lock)
    f = c[0] * v[0] + c[1] * v[1] + c[2] * v[2]
    return f if kind == 'MIN' else -f


def constraints(points, cg, lock, neg):
    out = []
    for x in points:
        v = full(x, lock)
        for c in cg:
            g = fun(c, v, v)
            out.append(-g if neg else g)
    return out


def dot(a, v):
    return a[0] * v[0] + a[1] * v[1] + a[2] * v[2]


def linear(points, ca, lock):
    out = []
    for x in points:
        v = full(x, lock)
        for a, b in ca:
            out.append(dot(a, v) - b)
    return out


def evaluated(x, cg, ca, senses, lock, which):
    v = full(x, lock)
    vals = [fun(c, v, v) for c in cg] + [dot(a, v) - b for a, b in ca]
    out = []
    for i in range(len(vals)):
        g, s = vals[i], senses[i]
        if which == 'all':
            out.append(g)
        elif which == 'eq' and s == '=':
            out.append(g)
        elif which == 'ineq' and s != '=':
            out.append(g if s == '>' else -g)
        elif which == 'nonlin' and i < len(cg):
            out.append(g)
    return out


def feasible(vals, senses):
    tol = 1e-4
    ok = True
    for g, s in zip(vals, senses):
        if s == '<' and g > tol:
            ok = False
        if s == '>' and g < -tol:
            ok = False
        if s == '=' and (g > tol or g < -tol):
            ok = False
    return ok


def clipped(x, bounds):
    return [max(a, min(v, b)) for v, (a, b) in zip(x, bounds)]


def linearized(x, cf, cg, ca, senses, lock, dropped=()):
    v = full(x, lock)
    free = [i for i in range(3) if i not in [k for k, w in lock]]

    def diff(c, i):
        d = [c[1] + c[3] * v[2] + c[4], c[2] + c[5] * v[2], c[3] * v[0] + c[5] * v[1]]
        return d[i]
    A = [[diff(c, i) for i in free] for c in cg] + [[a[i] - 1 if b is None and i == 0 else a[i] for i in free] for a, b in ca]
    g = [fun(c, v, v) for c in cg] + [dot(a, v) - (v[0] if b is None else b) for a, b in ca]
    B = []
    for row, y in zip(A, g):
        b = -y
        for j in range(len(free)):
            b = b + row[j] * x[j]
        B.append(b)
    keep = [i for i in range(len(g)) if i not in dropped]
    return [[A[i] for i in keep], [B[i] for i in keep], [diff(cf, i) for i in free], fun(cf, v, v), v, v, [v[i] for i in free]]


def penalty(x, cf, cg, senses, kind, R, p, bounds, bar):
    F = 0
    if kind != 'exact':
        F = fun(cf, x, x)
        q = p
    else:
        q = 1
    viol = []
    for c, s in zip(cg, senses):
        g = fun(c, x, x)
        if s == '=':
            viol.append(abs(g))
        elif s == '<':
            viol.append(max(0, g))
        else:
            viol.append(max(0, -g))
    if kind != 'barrier':
        for w in viol:
            F = F + R * w ** q
        for y, (a, b) in zip(x, bounds):
            if a is not None:
                F = F + R * max(0, a - y) ** (2 if kind == 'exterior' else 1)
            if b is not None:
                F = F + R * max(0, y - b) ** (2 if kind == 'exterior' else 1)
        return F
    for c, s in zip(cg, senses):
        g = fun(c, x, x)
        if s == '>':
            g = -g
        if s != '=':
            F = F - 1 / R * math.log(-g) if bar == 'log' else F - 1 / R / g
    for y, (a, b) in zip(x, bounds):
        if a is not None:
            F = F - 1 / R / (a - y)
        if b is not None:
            F = F - 1 / R / (y - b)
    return F


def lagrangian(x, cf, cg, senses, R, Q, bounds, mult):
    """Rockafellar's augmented Lagrangian of inequalities g <= 0 and equalities, without the constant terms."""
    F = fun(cf, x, x)
    for c, s, m in zip(cg, senses, mult[0]):
        g = fun(c, x, x)
        if s == '=':
            F = F - m * g + Q * g ** 2
        else:
            h = g if s == '<' else -g
            F = F + R * max(m / (2 * R) + h, 0) ** 2
    for y, (a, b), (ml, mu) in zip(x, bounds, mult[1]):
        if a is not None:
            F = F + R * max(ml / (2 * R) + a - y, 0) ** 2
        if b is not None:
            F = F + R * max(mu / (2 * R) + y - b, 0) ** 2
    return F


def multipliers(x, cg, senses, R, Q, bounds, mult):
    out = []
    for c, s, m in zip(cg, senses, mult[0]):
        g = fun(c, x, x)
        if s == '=':
            out.append(m - 2 * Q * g)
        else:
            h = g if s == '<' else -g
            out.append(max(0, m + 2 * R * h))
    for i in range(3):
        ml, mu = mult[1][i]
        a, b = bounds[i]
        if a is not None:
            ml = max(0, ml + 2 * R * (a - x[i]))
        if b is not None:
            mu = max(0, mu + 2 * R * (x[i] - b))
        out += [ml, mu]
    return out


# ------------------------------------------------------------ variables
def sub_plain(v, scale, how):
    s = 1 if scale is None else scale
    y = s * v
    A = [v, 0 if scale is None else 0 / s, 100 / s]
    if how == 'target':
        return A + [y, 2, y, 4]
    if how == 'target_object':
        return A + [y, 2, 3, 4]
    if how == 'target_objects':
        return A + [y, 2, y, 4]
    return A + [y, y, y, y]


def sub_fun(v, scale, a, b):
    y = v if scale is None else scale * v
    part = [y, a * y ** 2 + b, y]
    return [v] + part + part


def sub_section(v, scale):
    y = v if scale is None else scale * v
    return [v, y, 2, y, 5]


def locked(v, w, u, how):
    z = v
    if how == 'value':
        z = w
    elif how == 'zero':
        z = 0
    return [z, z, z, z, u, u, 0]


def index(values, i, j):
    a, b = values[i], values[j]
    return [0, len(values) - 1, i, i, a, a, j, j, b, b, j, j, b, b]


def binary(prop, vals):
    out = [0, 1]
    pro, sec, act = 'none', 'none', None
    for v in vals:
        if prop == 'member':
            act = v == 1
        elif v == 1:
            if prop == 'profile':
                pro = 'sec'
            else:
                sec = 'sec'
        out += [v, pro, sec, act, pro, sec, act]
    return out


def discrete(values, x):
    lb = min(values)
    ub = max(values)
    d = min([abs(v - x) for v in values])
    ok = 1 if d < 1e-4 and lb <= x <= ub else 0
    return [lb, ub, ok, 0 if d <= 1e-3 else d]


def neighbours(values, x):
    return [max([v for v in values if v < x]), min([v for v in values if v > x])]


# ------------------------------------------------------------ approximations
def bilinear(c, x):
    return c[0] + c[1] * x[0] + c[2] * x[1] + c[3] * x[0] * x[1]


def gradient(c, x):
    return [c[1] + c[3] * x[1], c[2] + c[3] * x[0]]


def linear_model(c, x, own):
    a = own if own is not None else gradient(c, x)
    return [a, bilinear(c, x), a[0] * x[0] + a[1] * x[1]]


def conlin(xk, fk, dfk, x):
    """Linear in x for positive derivatives, linear in 1/x for negative ones."""
    f = fk
    for a, d, y in zip(xk, dfk, x):
        if d >= 0:
            f = f + d * (y - a)
        else:
            f = f + d * a * (1 - a / y)
    return f


def mma(xk, fk, dfk, L, U, x):
    f = fk
    for a, d, l, u, y in zip(xk, dfk, L, U, x):
        if d >= 0:
            f = f + (u - a) ** 2 * d * (1 / (u - y) - 1 / (u - a))
        else:
            f = f - (a - l) ** 2 * d * (1 / (y - l) - 1 / (a - l))
    return f


def mma_class(xk, fk, dfk, L, U, x):
    out = [mma(xk, fk, dfk, L, U, x)]
    for a, d, l, u, y in zip(xk, dfk, L, U, x):
        if d >= 0:
            out.append((u - a) ** 2 * d / (u - y) ** 2)
        else:
            out.append((a - l) ** 2 * d / (y - l) ** 2)
    return out


def grad3(c, v):
    return [c[1] + c[3] * v[2], c[2], c[3] * v[0]]


def approximated(x, y, cf, cg, ca, senses, how, L, U, mu):
    def approx(c):
        if how == 'conlin':
            return conlin(x, fun(c, x, None), grad3(c, x), y)
        return mma(x, fun(c, x, None), grad3(c, x), L, U, y)
    out = [approx(cf)] + [approx(c) for c in cg] + [dot(a, y) - b for a, b in ca]
    out += [fun(cf, y, None)] + [fun(c, y, None) for c in cg] + [dot(a, y) - b for a, b in ca]
    if how == 'conlin':
        out += [-50, -50, -50, 50, 50, 50]
    else:
        out += [max(-50, L[i] + mu * (x[i] - L[i])) for i in range(3)] + [min(50, U[i] - mu * (U[i] - x[i])) for i in range(3)]
    return out + [s for s in senses] + [1 for s in senses]


def neighborhood(kinds, x, k):
    sets = []
    for (kind, a), v in zip(kinds, x):
        vals = list(a) if kind == 'D' else list(range(a[0], a[1] + 1))
        vals = sorted(vals, key=lambda y: abs(y - v))
        sets.append(vals[:k])
    out = [[]]
    for s in sets:
        out = [p + [v] for p in out for v in s]
    return out


def substitution_want(points, lock, bounds):
    b = [bounds[i] for i in range(3) if i not in [k for k, w in lock]]
    x = clipped(points[-1], b)
    v = full(x, lock)
    return v + v + x + [0, 0]


def membership(lock):
    names = ['x0', 'x1', 'x2']
    ids = [k for k, w in lock]
    out = [3, 2, 3, 1, 3 - len(lock), len(lock)]
    out += [names[i] for i in range(3) if i not in ids] + [names[i] for i in range(3) if i in ids]
    for i in range(3):
        v = None
        for k, w in lock:
            if k == i:
                v = w
        out.append(v)
    n = 3 - len(lock)
    out += [-50] * n + [50] * n + [0] * n
    return out + ['x0', 'x2', 'x2', 'x1', 1, 1]


def after_linearize(x, cf, cg, lock):
    v = full(x, lock)
    return [fun(c, v, v) for c in cg] + [fun(cf, v, v)]
