"""Reference for the optimisation solvers."""


def value(c, x):
    return c[0] + c[1] * x[0] + c[2] * x[1] + c[3] * x[2] + c[4] * x[0] * x[1]


def full(x, lock):
    out = []
    i = 0
    for j in range(3):
        v = None
        for k, w in lock:
            if k == j:
                v = w
        if v is None:
            v = x[i]
            i += 1
        out.append(v)
    return out


def dot(a, v):
    return a[0] * v[0] + a[1] * v[1] + a[2] * v[2]


def rhs(b, v):
    """Right hand side: a number, or (None) the first variable."""
    return v[0] if b is None else b


def slope(a, b, i):
    return a[i] - 1 if b is None and i == 0 else a[i]


def given(x, cf, cg, ca, senses, lock, bounds, kind):
    """Objective, equalities (squared), inequalities g >= 0 and bounds of the free variables."""
    v = full(x, lock)
    g = [value(c, v) for c in cg] + [dot(a, v) - rhs(b, v) for a, b in ca]
    f = value(cf, v)
    eq = [y ** 2 for y, s in zip(g, senses) if s == '=']
    ineq = [y if s == '>' else -y for y, s in zip(g, senses) if s != '=']
    free = [bounds[i] for i in range(3) if i not in [k for k, w in lock]]
    return [f if kind == 'MIN' else -f, eq, ineq, [a for a, b in free], [b for a, b in free]]


def ok(vals, senses):
    tol = 1e-4
    res = True
    for g, s in zip(vals, senses):
        if s == '<' and g > tol:
            res = False
        if s == '>' and g < -tol:
            res = False
        if s == '=' and (g > tol or g < -tol):
            res = False
    return res


def is_feasible(vals, senses):
    r = ok(vals, senses)
    return [r, r]


def still(p, q):
    """The change from p to q is within the stopping tolerances."""
    dx = sum([(b - a) ** 2 for a, b in zip(p, q)])
    return dx < 1e-16 * sum([a ** 2 for a in p]) or abs(q[0] - p[0]) <= 1e-8 + 1e-4 * abs(p[0])


def walk(points, senses, log):
    """Best of the feasible points, or the last point; and the points in the order they were visited."""
    best = None
    seen = [points[0]]
    for p in points[1:]:
        last = seen[-1]
        seen.append(p)
        if ok(p[1:], senses):
            if best is None or p[0] < best[0]:
                best = p
            if still(last, p):
                break
    if best is None:
        best = seen[-1]
    out = [best[0]] + best
    hist = seen if log else seen[:1]
    later = seen[1:] if log else []
    return [out + out, hist, [p[0] for p in hist], [p[0] for p in later], later, [p[1:] for p in later]]


def gradient(c, v, free):
    g = [c[1] + c[4] * v[1], c[2] + c[4] * v[0], c[3]]
    return [g[i] for i in free]


def reach(mixed, x, lo, up, values, limits, relative):
    """Bounds of a variable of the sub-problem."""
    if values is not None:
        lo = min(values)
        up = max(values)
    d = x if relative else up - lo
    down = limits[0] * d
    rise = limits[1] * d
    if values is not None and mixed:
        near = 0
        for i in range(len(values)):
            if abs(values[i] - x) < abs(values[near] - x):
                near = i
        if near > 0:
            down = max(down, x - values[near - 1])
        if near + 1 < len(values):
            rise = max(rise, values[near + 1] - x)
    return [max(lo, x - down), min(up, x + rise)]


def program(mixed, cf, cg, ca, senses, lock, bounds, values, x, limits, relative, beta, C, kind):
    """Rows (expressions that are not positive), objective and bounds of the sub-problem; unknowns: variables, beta, choices."""
    free = [i for i in range(3) if i not in [k for k, w in lock]]
    v = full(x, lock)
    sizes = [len(values[i]) for i in free if values[i] is not None] if mixed else []
    slack = beta is not None
    tail = sum(sizes)
    nothing = [0] * tail
    rows = []
    gs = [(gradient(c, v, free), value(c, v)) for c in cg] + [([slope(a, b, i) for i in free], dot(a, v) - rhs(b, v)) for a, b in ca]
    for (d, g), s in zip(gs, senses):
        const = g - sum([a * y for a, y in zip(d, x)])
        relax = 0 if mixed and s == '=' else -1
        mid = [relax] if slack else []
        if s != '>':
            rows.append(d + mid + nothing + [const])
        if s != '<':
            rows.append([-a for a in d] + mid + nothing + [-const])
    n = len(free)
    first = n + (1 if slack else 0)
    width = first + tail
    for j in range(n):
        w = values[free[j]]
        if mixed and w is not None:
            one = [0] * width
            pick = [0] * width
            for i in range(len(w)):
                one[first + i] = 1
                pick[first + i] = w[i]
            pick[j] = -1
            first += len(w)
            rows.append(one + [-1])
            rows.append([-a for a in one] + [1])
            rows.append(pick + [0])
            rows.append([-a for a in pick] + [0])
    sign = 1 if kind == 'MIN' else -1
    obj = [sign * a for a in gradient(cf, v, free)] + ([C] if slack else []) + nothing + [0]
    b = [reach(mixed, x[j], bounds[free[j]][0], bounds[free[j]][1], values[free[j]], limits, relative) for j in range(n)]
    low = [p[0] for p in b] + ([0] if slack else []) + nothing
    high = [p[1] for p in b] + ([beta] if slack else []) + [1] * tail
    return [rows, obj, low, high]


def asymptotes(bounds, points, L, U, lock):
    free = [i for i in range(3) if i not in [k for k, w in lock]]
    xk = points[-1]
    low = []
    high = []
    b0 = []
    b1 = []
    for j in range(len(free)):
        lo, up = bounds[free[j]]
        D = up - lo
        if len(points) <= 2:
            l = xk[j] - D / 2
            u = xk[j] + D / 2
        else:
            x1 = points[-2][j]
            x2 = points[-3][j]
            turn = (xk[j] - x1) * (x1 - x2)
            g = 7 / 10 if turn < -1e-6 else 12 / 10 if turn > 1e-6 else 1
            l = xk[j] - g * (x1 - L[-1][j])
            u = xk[j] + g * (U[-1][j] - x1)
        l = min(max(l, xk[j] - 10 * D), xk[j] - D / 100)
        u = max(min(u, xk[j] + 10 * D), xk[j] + D / 100)
        low.append(l)
        high.append(u)
        b0.append(max(lo, l + (xk[j] - l) / 10, xk[j] - D / 2))
        b1.append(min(up, u - (u - xk[j]) / 10, xk[j] + D / 2))
    return [low, high, b0, b1]


def stopping(kind, a, b, tol):
    if kind == 'x':
        t = 1e-8 if tol is None else tol
        return sum([(q - p) ** 2 for p, q in zip(a, b)]) < t ** 2 * sum([p ** 2 for p in a])
    t = (1e-8, 1e-4) if tol is None else tol
    return abs(b - a) <= t[0] + t[1] * abs(a)
