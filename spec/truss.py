"""Reference of the C23 rules: division of roof trusses into panels, connectivity, supports and loads."""
import math


def half(topology, n, L, dx, up):
    """x coordinates (top, bottom) of the nodes of one half, measured from the support, the ridge included when it has a node.

    The bottom chord of a K truss is taken to be shorter than the top chord."""
    if topology == 'N':
        if dx == 0:
            x = [L * i / n for i in range(n + 1)]
            return x, x
        b = [dx + (L - dx) * i / (n - 1) for i in range(n)]
        return [0] + b, b
    if topology == 'KT':
        if dx == 0 and not up:
            d = L / n
            return [d * i / 2 for i in range(2 * n + 1)], [0] + [d * (2 * i + 1) / 2 for i in range(n)]
        if dx == 0:
            d = 2 * L / (2 * n + 1)
            return [d * i / 2 for i in range(2 * n + 2)], [d * i for i in range(n + 1)]
        d = 2 * (L - dx) / (2 * n - 1)
        b = [dx + d * i for i in range(n)]
        top = [0]
        for x in b:
            top += [x, x + d / 2]
        return top, b
    d = 2 * (L - dx) / (2 * n - 1)
    b = [dx + d * i for i in range(n)]
    return [0] + [x + d / 2 for x in b], b


def coordinates(case):
    topology, n, L1, L2, dx1, dx2, h1, h2, up, verticals = case
    top, bottom = half(topology, n, L1, dx1, up)
    top2, bottom2 = half(topology, n, L2, dx2, up)
    span = L1 + L2
    dy = h2 - h1
    x = top + [span - a for a in top2[::-1][1:]]
    y = [dy * a / L1 for a in top] + [dy * a / L2 for a in top2[::-1][1:]]
    b2 = [span - a for a in bottom2[::-1]]
    if topology == 'N':
        b2 = b2[1:]
    b = bottom + b2
    return x, y, b, [-h1 for a in b]


def sizes(topology, n, dx, up):
    """Numbers of nodes of the top and of the bottom chord."""
    if topology == 'N':
        return 2 * n + 1, 2 * n + 1 if dx == 0 else 2 * n - 1
    if topology == 'KT':
        if dx == 0:
            return (4 * n + 3, 2 * n + 2) if up else (4 * n + 1, 2 * n + 2)
        return 4 * n + 1, 2 * n
    if dx == 0:
        return (2 * n + 3, 2 * n + 2) if up else (2 * n + 1, 2 * n + 2)
    return 2 * n + 1, 2 * n


def lines(case):
    topology, n, L1, L2, dx1, dx2, h1, h2, up, verticals = case
    nt, nb = sizes(topology, n, dx1, up)
    mid = (nt - 1) // 2
    return [0] * (mid + 1), [0] * (mid + 1), L1, 0, L1 + L2, [-h1] * nb


def order(case):
    topology, n, L1, L2, dx1, dx2, h1, h2, up, verticals = case
    nt, nb = sizes(topology, n, dx1, up)
    return [[True] * (nt - 1), [0] * nt, [True] * (nb - 1), [0] * nb]


def web(topology, n, dx, up, verticals):
    """Braces as pairs (top node, bottom node)."""
    nt, nb = sizes(topology, n, dx, up)
    out = []
    if topology == 'N':
        if dx == 0:
            out += [(i, i) for i in range(nt) if verticals or 0 < i < nt - 1]
            for i in range(n):
                out += [(i + 1, i), (nt - 2 - i, nt - 1 - i)] if up else [(i, i + 1), (nt - 1 - i, nt - 2 - i)]
        else:
            out += [(i + 1, i) for i in range(nb)]
            for i in range(n):
                out += [(i, i), (nt - 1 - i, nb - 1 - i)]
        return sorted(out)
    step = 2 if topology == 'KT' else 1
    if dx == 0 and up:
        if topology == 'KT':
            for i in range(nb):
                out += [(2 * i - 1, i), (2 * i + 1, i)]
                if verticals or 0 < i < nb - 1:
                    out += [(2 * i, i)]
            out = [b for b in out if 0 <= b[0] < nt]
        else:
            for i in range(1, nt - 1):
                out += [(i, i - 1), (i, i)]
            if verticals:
                out += [(0, 0), (nt - 1, nb - 1)]
        return sorted(out)
    first = 1 if dx == 0 else 0
    for i in range(nb - 2 * first):
        out += [(step * i + j, i + first) for j in range(step + 1)]
    if first and verticals:
        out += [(0, 0), (nt - 1, nb - 1)]
    return sorted(out)


def members(case):
    topology, n, L1, L2, dx1, dx2, h1, h2, up, verticals = case
    nt, nb = sizes(topology, n, dx1, up)
    w = web(topology, n, dx1, up, verticals)
    return [[i, i + 1] for i in range(nt - 1)], [[i, i + 1] for i in range(nb - 1)], w, nt + nb, nt + nb - 2 + len(w), nt - 1, nb - 1


def profiles(case, a, b, c):
    topology, n, L1, L2, dx1, dx2, h1, h2, up, verticals = case
    nt, nb = sizes(topology, n, dx1, up)
    w = len(web(topology, n, dx1, up, verticals))
    return ([200] * (nt - 1), [180] * (nb - 1), [120] * w), ([3] * (nt - 1), [3] * (nb - 1), [2] * w), (1, 1, 1), []


def shape(L1, L2, h1, h2, slope):
    if slope is None:
        slope = math.degrees(math.atan((h2 - h1) / L1))
        dy = h2 - h1
    else:
        dy = L1 * math.tan(math.radians(slope))
        if h2 is None:
            h2 = h1 + dy
        else:
            h1 = h2 - dy
    return h1, h2, h1, slope, L1 + L2, dy


def supports(case):
    topology, n, L1, L2, dx1, dx2, h1, h2, up, verticals = case
    nt, nb = sizes(topology, n, dx1, up)
    left = (-1, 0, [0, 1]) if dx1 == 0 else (0, -1, [0, 1])
    right = (-1, nb - 1, [1]) if dx2 == 0 else (nt - 1, -1, [1])
    return [left, right]


def uniform(case, q, chord, load_id, ltype):
    topology, n, L1, L2, dx1, dx2, h1, h2, up, verticals = case
    nt, nb = sizes(topology, n, dx1, up)
    w = len(web(topology, n, dx1, up, verticals))
    if chord == 'top':
        out = [(i, -1, [q, q], None, 'y', 'global', load_id, 1, ltype.upper()) for i in range(nt - 1)]
    else:
        out = [(-1, i, [q, q], None, 'y', 'global', load_id, 1, ltype.upper()) for i in range(nb - 1)]
    a, b = (1, 0) if chord == 'top' else (0, 1)
    return out, [len(out)], [load_id], [a] * (nt - 1) + [b] * (nb - 1) + [0] * w


def zones(case, q, x, load_id, ltype):
    top, y, bottom, yb = coordinates(case)
    out = []
    for i in range(len(top) - 1):
        a, b = top[i], top[i + 1]
        k = 0
        while k < len(x) and x[k] <= a:
            k += 1
        if k < len(x) and x[k] < b:
            out.append((i, -1, [q[k], q[k + 1]], (x[k] - a) / (b - a), 'y', 'global', load_id, 1, ltype.upper()))
        else:
            out.append((i, -1, [q[k], q[k]], None, 'y', 'global', load_id, 1, ltype.upper()))
    return out, [len(out)], [1] * len(out), [0] * (len(bottom) - 1)


def moved(case, dy):
    top, y, bottom, yb = coordinates(case)
    return y, [v + dy for v in yb]


def at(i, n):
    return [m for m in (i - 1, i) if 0 <= m < n - 1]


def joints(case):
    topology, n, L1, L2, dx1, dx2, h1, h2, up, verticals = case
    nt, nb = sizes(topology, n, dx1, up)
    w = web(topology, n, dx1, up, verticals)
    kinds = {1: 'Y', 2: 'K', 3: 'KT'}
    out = []
    has_top, has_bottom = [], []
    for i in range(nb):
        b = [m for m in w if m[1] == i]
        has_bottom.append(len(b) > 0)
        if b:
            out.append((-1, i, kinds[len(b)], 'bottom', at(i, nb), b))
    ridge = None
    for i in range(nt):
        b = [m for m in w if m[0] == i]
        has_top.append(len(b) > 0)
        if b:
            out.append((i, -1, kinds[len(b)], 'top', at(i, nt), b))
        if i == (nt - 1) // 2 and len(b) > 1:
            ridge = i
    chords = [[[j for j in (i, i + 1) if has_top[j]] for i in range(nt - 1)], [[j for j in (i, i + 1) if has_bottom[j]] for i in range(nb - 1)]]
    return out, [(True, True)] * len(w), chords, ridge


def mirror(i, n):
    return -1 if 2 * i == n - 1 else n - 1 - i


def pairs(case):
    topology, n, L1, L2, dx1, dx2, h1, h2, up, verticals = case
    nt, nb = sizes(topology, n, dx1, up)
    w = web(topology, n, dx1, up, verticals)
    br = []
    for m in w:
        o = (nt - 1 - m[0], nb - 1 - m[1])
        br.append((m, (-1, -1) if o == m else o))
    js = []
    for i in range(nb):
        if [m for m in w if m[1] == i]:
            js.append((-1, i, -1, mirror(i, nb)))
    for i in range(nt):
        if [m for m in w if m[0] == i]:
            js.append((i, -1, mirror(i, nt), -1))
    return [mirror(i, nt) for i in range(nt)], [mirror(i, nb) for i in range(nb)], [mirror(i, nt - 1) for i in range(nt - 1)], [
        mirror(i, nb - 1) for i in range(nb - 1)], br, js


def frame_grid(x0, y0, span, height, panels):
    n = panels
    x = [x0 + span * i / n for i in range(n + 1)]
    chord = [[i, i + 1] for i in range(n)]
    return x, [y0 + height] * (n + 1), x, [y0] * (n + 1), (chord, chord, [(i, i) for i in range(n + 1)], 2 * n + 2, 3 * n + 1, n, n), [
        (-1, 0, [0, 1]), (-1, n, [1])], [[False, False]] * (n + 1)


def frame_joints(x0, y0, span, height, panels):
    n = panels + 1
    return [(-1, i, 'Y', [(i, i)]) for i in range(n)] + [(i, -1, 'Y', [(i, i)]) for i in range(n)]


def frame_loads(x0, y0, span, height, panels, q, p, chord, load_id):
    n = panels
    if chord == 'top':
        out = [(i, -1, [q, q], None, 'y', 'global', load_id, 1, 'SNOW') for i in range(n)]
        pts = [(i, -1, [0, p[0] if i in (0, n) else p[1]], load_id, 1, 'LIVE') for i in range(n + 1)]
    else:
        out = [(-1, i, [q, q], None, 'y', 'global', load_id, 1, 'SNOW') for i in range(n)]
        pts = [(-1, i, [0, p[1]], load_id, 1, 'LIVE') for i in range(1, n)]
    return out, pts, [len(out) + len(pts)]


def bars(nodes, ties, kind):
    return nodes, ties, [100 + 10 * i for i in range(len(ties))], ['bar'] * len(ties)
