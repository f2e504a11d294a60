"""Timber design by EN 1995-1-1 and EN 1995-1-2 (reference of the C21 rules)."""
import math

KMOD = {1: {'perm': 0.6, 'lt': 0.7, 'mt': 0.8, 'st': 0.9, 'inst': 1.1},
        2: {'perm': 0.6, 'lt': 0.7, 'mt': 0.8, 'st': 0.9, 'inst': 1.1},
        3: {'perm': 0.5, 'lt': 0.55, 'mt': 0.65, 'st': 0.7, 'inst': 0.9}}
KDEF = {1: 0.6, 2: 0.8, 3: 2.0}
GAMMA = {'solid_timber': 1.3, 'glt': 1.25, 'lvl': 1.2}

NAMES = ['fmk', 'ft0k', 'ft90k', 'fc0k', 'fc90k', 'fvk', 'E0mean', 'E005', 'E90mean', 'Gmean', 'G005', 'rhok', 'rhomean']
SOLID = {  # EN 338
    'C14': [14, 8, 0.4, 16, 2.0, 1.7, 7000, 4700, 230, 440, 300, 290, 350],
    'C16': [16, 10, 0.4, 17, 2.2, 2.0, 8000, 5400, 270, 500, 340, 310, 370],
    'C18': [18, 11, 0.5, 18, 2.2, 2.0, 9000, 6000, 300, 560, 380, 320, 380],
    'C20': [20, 12, 0.5, 19, 2.3, 2.3, 9500, 6400, 320, 590, 405, 330, 390],
    'C22': [22, 13, 0.5, 20, 2.4, 2.4, 10000, 6700, 330, 630, 430, 340, 410],
    'C24': [24, 14, 0.5, 21, 2.5, 2.5, 11000, 7400, 370, 690, 460, 350, 420],
    'C27': [27, 16, 0.5, 22, 2.6, 2.7, 11500, 7700, 380, 720, 480, 370, 450],
    'C30': [30, 18, 0.6, 23, 2.7, 3.0, 12000, 8000, 400, 750, 500, 380, 460],
    'C35': [35, 21, 0.6, 25, 2.8, 3.4, 13000, 8700, 430, 810, 540, 400, 480],
    'C40': [40, 24, 0.6, 25, 2.8, 3.8, 14000, 9400, 470, 880, 590, 420, 500],
    'D30': [30, 18, 0.6, 23, 8.0, 4, 11000, 9200, 730, 690, 500, 530, 640],
    'D35': [35, 21, 0.6, 25, 8.1, 4, 12000, 10100, 800, 750, 550, 540, 650],
    'D40': [40, 24, 0.6, 26, 8.3, 4, 13000, 10900, 860, 810, 600, 550, 660],
    'D50': [50, 30, 0.6, 29, 9.3, 4, 14000, 11800, 930, 880, 650, 620, 750],
    'D60': [60, 36, 0.6, 32, 10.5, 4.5, 17000, 14300, 1130, 1060, 700, 700, 840],
    'D70': [70, 42, 0.6, 34, 13.5, 5, 20000, 16800, 1330, 1250, 750, 900, 1080]}
GLULAM = {  # EN 1194
    'GL24c': [24, 14, 0.35, 21, 2.4, 2.2, 11600, 9400, 320, 590, 480, 350, 390],
    'GL24h': [24, 16.5, 0.4, 24, 2.7, 2.7, 11600, 9400, 390, 720, 530, 380, 390],
    'GL28c': [28, 16.5, 0.4, 24, 2.7, 2.7, 12600, 10200, 390, 720, 580, 380, 430],
    'GL28h': [28, 19.5, 0.45, 26.5, 3.0, 3.2, 12600, 10200, 420, 780, 630, 410, 460],
    'GL32c': [32, 19.5, 0.45, 26.5, 3.0, 3.2, 13700, 11100, 420, 780, 630, 410, 470],
    'GL32h': [32, 22.5, 0.5, 29, 3.3, 3.8, 13700, 11100, 460, 850, 690, 430, 500]}
LVL_NAMES = ['fmk', 's', 'fm0flatk', 'ft0k', 'ft90edgek', 'fc0k', 'fc90edgek', 'fc90flatk', 'fvk', 'fr0k', 'E0mean', 'E005',
             'Gmean', 'G005', 'rhok', 'rhomean']
LVL = {
    'Kerto_S': [44, 0.12, 50, 35, 0.8, 35, 6.0, 1.8, 4.1, 2.3, 13800, 11600, 600, 400, 480, 510],
    'Kerto_T': [27, 0.15, 32, 24, 0.5, 26, 4.0, 1.0, 2.4, 1.3, 10000, 8800, 400, 300, 410, 440],
    'Kerto_Q_21_24': [28, 0.12, 32, 19, 6.0, 19, 9.0, 2.2, 4.5, 1.3, 10000, 8300, 600, 400, 480, 510],
    'Kerto_Q_27_69': [32, 0.12, 36, 26, 6.0, 26, 9.0, 2.2, 4.5, 1.3, 10500, 8800, 600, 400, 480, 510]}


def kind(g):
    return 'solid_timber' if g in SOLID else 'glt' if g in GLULAM else 'lvl'


def values(g):
    if g in SOLID:
        return SOLID[g]
    if g in GLULAM:
        return GLULAM[g]
    return LVL[g]


def prop(g, name):
    names = LVL_NAMES if g in LVL else NAMES
    return values(g)[names.index(name)]


def grade(g):
    return values(g) + [prop(g, 'E0mean'), prop(g, 'rhomean'), prop(g, 'Gmean')]


def kmod(sc, ldc):
    return KMOD[sc][ldc]


def kdef(sc):
    return KDEF[sc]


def design_value(fk, k, g):
    return k * fk / g


def fd(g, name, sc, ldc):
    return KMOD[sc][ldc] * prop(g, name) / GAMMA[kind(g)]


# ------------------------------------------------------------ EN 1995-1-2
def charring(g, thickness):
    """Rates (one-dimensional, notional)."""
    if g in SOLID:
        b0, bn = 0.65, 0.8
    elif g in GLULAM:
        b0, bn = 0.65, 0.7
    elif prop(g, 'rhok') >= 480:
        b0, bn = 0.65, 0.7
    else:
        b0, bn = 0.7, 0.75
    if thickness < 20:
        b0 = b0 * math.sqrt(450 / prop(g, 'rhok')) * math.sqrt(20 / thickness)
    return [b0, bn]


def char_unprotected(t, bn):
    return t * bn + 7 * min(t / 20, 1)


def char_protected(t, bn, tch, tf, ta):
    """Effective depth of charring behind a protection (charring starts at tch, protection falls at tf, full protection of char at ta)."""
    k0 = min(t / 20, 1) if tch <= 20 else min(t / tch, 1)
    if t <= tch:
        d = 0
    elif t <= tf:
        d = 0.73 * bn * (t - tch)
    elif t <= ta:
        d = 0.73 * bn * (tf - tch) + 2 * bn * (t - tf)
    else:
        d = 0.73 * bn * (tf - tch) + 2 * bn * (ta - tf) + bn * (t - ta)
    return d + 7 * k0


def ta_same(tf, bn):
    """Time when the char layer protects as without cladding, when charring starts at failure of the protection."""
    return min(2 * tf, 25 / (2 * bn) + tf)


def side(t, bn, prot):
    if prot is None:
        return char_unprotected(t, bn)
    tch, tf = prot
    return char_protected(t, bn, tch, tf, ta_same(tf, bn))


def fire_section(g, B, H, t, sides, left, right, bottom, top):
    bn = charring(g, 100)[1]
    b = B - side(t, bn, left) - side(t, bn, right)
    h = H - side(t, bn, bottom)
    if sides == 4:
        h = h - side(t, bn, top)
    return section(b, h)


def section(b, h):
    if b <= 0:
        b = 1e-5
    if h <= 0:
        h = 1e-5
    return [h, b, b * h, b * h ** 3 / 12, h * b ** 3 / 12, b * h ** 2 / 6, h * b ** 2 / 6]


def generic_fire(g, B, H, t, sides, cover, prot):
    return fire_section(g, B, H, t, sides, prot, prot, prot, prot if cover == 4 else None)


def resized(g, B, H, t):
    """measures of the charred section, of the full one, and some of the latter at points of a prismatic beam"""
    a = section(B, H)
    return fire_section(g, B, H, t, 3, None, None, None, None) + a + [H, B * H, a[3], a[6]]


def wood_protection(g, hp):
    tch = hp / charring(g, hp)[0]
    return [tch, tch, hp]


def gypsum_f(g, tch):
    """Start of charring and failure of a type F board."""
    return [tch, 12.5 / (0.73 * charring(g, 100)[1]) + tch]


# ------------------------------------------------------------ tapered beams
def single(h0, hap, x):
    return h0 + (hap - h0) * x


def double(h0, hap, xap, x):
    if x <= xap:
        return h0 + (hap - h0) * x / xap
    return hap - (hap - h0) * (x - xap) / (1 - xap)


def taper(B, h):
    if h <= 0:
        h = 1e-5
    return [h, B * h, B * h ** 3 / 12, h * B ** 3 / 12, B * h ** 2 / 6, h * B ** 2 / 6]


def single_at(B, h0, hap, x):
    return taper(B, single(h0, hap, x))


def double_at(B, h0, hap, xap, x):
    return taper(B, double(h0, hap, xap, x))


def elements(B, hs):
    r = []
    for h in hs:
        r += [B * h, B * h ** 3 / 12, h * B ** 3 / 12]
    return r


def single_elements(B, h0, hap, n):
    return elements(B, [single(h0, hap, (2 * i + 1) / (2 * n)) for i in range(n)])


def double_elements(B, h0, hap, xap, n):
    return elements(B, [double(h0, hap, xap, (2 * i + 1) / (2 * n)) for i in range(n)])


def curved_height(L, h0, a, b, r, x, arched):
    """Depth of a beam with a curved lower edge and a curved (arched) or pitched upper edge; symmetric about midspan."""
    d = abs(L / 2 - x)
    def edge(slope, rise):
        """line rising from the support, tangent to an arc of radius r about midspan"""
        if d >= r * math.sin(slope):
            return rise + (L / 2 - d) * math.tan(slope)
        y = rise + (L / 2 - r * math.sin(slope)) * math.tan(slope)
        return y + math.sqrt(r ** 2 - d ** 2) - r * math.cos(slope)
    upper = edge(a, h0) if arched else h0 + (L / 2 - d) * math.tan(a)
    h = upper - edge(b, 0)
    return h if h > 0 else 1e-5


# ------------------------------------------------------------ EN 1995-1-1
def k_h(g, h):
    """Depth factor of the bending strength."""
    if g in SOLID:
        if prop(g, 'rhok') <= 700 and h < 150:
            return min((150 / h) ** 0.2, 1.3)
        return 1
    if g in GLULAM:
        if h < 600:
            return min((600 / h) ** 0.1, 1.1)
        return 1
    return min((300 / h) ** prop(g, 's'), 1.2)


def bending_strength(g, h, sc, ldc):
    return k_h(g, h) * fd(g, 'fmk', sc, ldc)


def k_length(g, L):
    """Length factor of the tension strength of LVL."""
    return min((3000 / L) ** (prop(g, 's') / 2), 1.1)


def lvl_tension(g, L, sc, ldc):
    return k_length(g, L) * fd(g, 'ft0k', sc, ldc)


def strengths(g, sc, ldc):
    return [fd(g, n, sc, ldc) for n in ('fc0k', 'fc90k', 'fvk', 'ft90k')]


def lvl_strengths(g, sc, ldc, direction):
    return [fd(g, n, sc, ldc) for n in ('fc0k', 'fc90flatk' if direction == 'flat' else 'fc90edgek', 'fvk', 'ft90edgek', 'fr0k')]


def axial(g, B, H, sc, ldc, N):
    if N > 0:
        return N / (B * H) / fd(g, 'ft0k', sc, ldc)
    return -N / (B * H) / fd(g, 'fc0k', sc, ldc)


def bending(g, B, H, sc, ldc, My, Mz):
    f = fd(g, 'fmk', sc, ldc)
    sy, sz = abs(My) / (B * H ** 2 / 6) / f, abs(Mz) / (H * B ** 2 / 6) / f
    return max(sy + 0.7 * sz, 0.7 * sy + sz)


def tension_bending(g, B, H, sc, ldc, N, My, Mz):
    return bending(g, B, H, sc, ldc, My, Mz) + N / (B * H) / fd(g, 'ft0k', sc, ldc)


def compression_bending(g, B, H, sc, ldc, N, My, Mz):
    return bending(g, B, H, sc, ldc, My, Mz) + (N / (B * H) / fd(g, 'fc0k', sc, ldc)) ** 2


def shear(g, B, H, sc, ldc, Vy, Vz, varnished):
    kcr = 1 if varnished or g in LVL else 0.67
    return max(abs(Vy), abs(Vz)) * 1.5 / (kcr * B * H) / fd(g, 'fvk', sc, ldc)


TORSION = {1: [0.208, 0.141], 1.5: [0.231, 0.196], 2: [0.246, 0.229], 2.5: [0.258, 0.249], 3: [0.267, 0.263], 4: [0.282, 0.281],
           5: [0.291, 0.291], 6: [0.299, 0.299], 8: [0.307, 0.307]}


def torsion(g, b, ratio, sc, ldc, T):
    """Utilisation and torsional constant of a rectangle of width b and depth ratio*b."""
    h = ratio * b
    w, i = TORSION[ratio]
    kshape = min(1 + 0.05 * ratio, 1.3)
    return [abs(T) / (w * h * b ** 2) / (kshape * fd(g, 'fvk', sc, ldc)), i * h * b ** 3]


def lying(g, b, ratio, T):
    """Torsional stress and constant of a rectangle lying flat (width ratio*b, depth b)."""
    w, i = TORSION[ratio]
    return [T / (w * ratio * b * b ** 2), i * ratio * b * b ** 3]


def segments(L, supports):
    s = [0] + sorted(supports) + [1]
    return [L * (s[i + 1] - s[i]) for i in range(len(s) - 1)]


def slenderness(g, i, l):
    return l / i / math.pi * math.sqrt(prop(g, 'fc0k') / prop(g, 'E005'))


def k_c(g, lam):
    bc = 0.2 if g in SOLID else 0.1
    k = 0.5 * (1 + bc * (lam - 0.3) + lam ** 2)
    return 1 / (k + math.sqrt(k ** 2 - lam ** 2))


def reduction(g, B, H, ly, lz):
    return [k_c(g, slenderness(g, H / math.sqrt(12), ly)), k_c(g, slenderness(g, B / math.sqrt(12), lz))]


def largest(loc, vals, a, b):
    return max([abs(v) for x, v in zip(loc, vals) if a <= x <= b])


def buckling(g, B, H, L, sc, ldc, beta, sy, sz, loc, N, My, Mz):
    """Utilisation in buckling about the y and z axes with segments between lateral supports."""
    fm, fc = fd(g, 'fmk', sc, ldc), fd(g, 'fc0k', sc, ldc)
    r = []
    for axis, sup, i, ky, kz in ((0, sy, H / math.sqrt(12), 1, 0.7), (1, sz, B / math.sqrt(12), 0.7, 1)):
        s = [0] + sorted(sup) + [1]
        best = 0
        for j in range(len(s) - 1):
            kc = k_c(g, slenderness(g, i, beta[axis] * L * (s[j + 1] - s[j])))
            n = min([v for x, v in zip(loc, N) if s[j] <= x <= s[j + 1]])
            if n < 0:
                u = (-n / (B * H) / (kc * fc) + ky * largest(loc, My, s[j], s[j + 1]) / (B * H ** 2 / 6) / fm
                     + kz * largest(loc, Mz, s[j], s[j + 1]) / (H * B ** 2 / 6) / fm)
                best = max(best, u)
        r.append(best)
    return r


def critical(g, B, H, lef, it):
    return math.pi * math.sqrt(prop(g, 'E005') * H * B ** 3 / 12 * prop(g, 'G005') * it) / (lef * B * H ** 2 / 6)


def k_crit(lam):
    if lam <= 0.75:
        return 1
    if lam <= 1.4:
        return 1.56 - 0.75 * lam
    return 1 / lam ** 2


def effective_length(l, h, edge):
    if edge == 'compression':
        return 0.9 * l + 2 * h
    if edge == 'tension':
        return 0.9 * l - 0.5 * h
    return 0.9 * l


def lateral(g, B, ratio, L, edge, supports, j):
    """Effective length, critical stress, relative slenderness and factor of segment j."""
    H = ratio * B
    l = segments(L, supports)[j]
    lef = effective_length(l, H, edge)
    s = critical(g, B, H, lef, TORSION[ratio][1] * H * B ** 3)
    lam = math.sqrt(prop(g, 'fmk') / s)
    return [lef, s, lam, k_crit(lam)]


def ltb(g, B, ratio, L, sc, ldc, edge, beta, sz, loc, N, My):
    """Lateral torsional buckling of all segments, with or without compression."""
    H = ratio * B
    fm, fc = fd(g, 'fmk', sc, ldc), fd(g, 'fc0k', sc, ldc)
    s = [0] + sorted(sz) + [1]
    best = 0
    axial = max([abs(n) for n in N]) > 0.1
    for j in range(len(s) - 1):
        kr = lateral(g, B, ratio, L, edge, sz, j)[3]
        kc = k_c(g, slenderness(g, B / math.sqrt(12), beta * L * (s[j + 1] - s[j])))
        for x, n, m in zip(loc, N, My):
            if s[j] <= x <= s[j + 1]:
                u = abs(m) / (B * H ** 2 / 6) / (kr * fm)
                if axial:
                    u = u ** 2 + abs(n) / (B * H) / (kc * fc)
                best = max(best, u)
    return best


def bracing(g, B, ratio, L, edge, sz, loc, My, n):
    """Spring stiffness, force and line load of bracing (EN 1995-1-1 9.2.5)."""
    s = [0] + sorted(sz) + [1]
    m = len(s) - 1
    best = 0
    for j in range(m):
        kr = lateral(g, B, ratio, L, edge, sz, j)[3]
        for x, v in zip(loc, My):
            if s[j] <= x <= s[j + 1]:
                best = max(best, (1 - kr) * abs(v) / (ratio * B))
    ks = 2 + 2 * math.cos(math.pi / m)
    r = [ks * best / (L / m), best / 50 if g in SOLID else best / 80]
    if n is not None:
        r.append(min(1, math.sqrt(15000 / L)) * n * best / (50 * L))
    return r


# ------------------------------------------------------------ apex of tapered, curved and pitched cambered beams
def apex_curved(h, r_in):
    r = r_in + h / 2
    q = h / r
    return [1 + 0.35 * q + 0.6 * q ** 2, 0.25 * q, 1.7]


def apex_pitched(h, r_in, a):
    r = r_in + h / 2
    q = h / r
    ta = math.tan(a)
    kl = ((1 + 1.4 * ta + 5.4 * ta ** 2) + (0.35 - 8 * ta) * q + (0.6 + 8.3 * ta - 7.8 * ta ** 2) * q ** 2 + 6 * ta ** 2 * q ** 3)
    kp = 0.2 * ta + (0.25 - 1.5 * ta + 2.6 * ta ** 2) * q + (2.1 * ta - 4 * ta ** 2) * q ** 2
    return [kl, kp, 1.7]


def apex_double(h0, hap, L):
    ta = (hap - h0) / (L / 2)
    return [1 + 1.4 * ta + 5.4 * ta ** 2, 0.2 * ta, 1.4]


def bend_factor(r_in, t):
    if r_in / t >= 240:
        return 1
    return 0.76 + 0.001 * r_in / t


def double_apex_checks(g, B, h0, hap, L, sc, ldc, M, kvol):
    kl, kp, kdis = apex_double(h0, hap, L)
    s = M / (B * hap ** 2 / 6)
    if kvol is None:
        v = min(B * hap ** 2, 2 / 3 * B * L * (hap + h0) / 2)
        kvol = 1 if g in SOLID else (1e7 / v) ** 0.2
    return [kl * s / fd(g, 'fmk', sc, ldc), kp * s / (kdis * kvol * fd(g, 'ft90k', sc, ldc))]


def shear_section(loc, L, h, n):
    """Section whose shear is checked for section n: within the depth from an end, the last one of that zone."""
    if loc[n] < h / L:
        return max([i for i in range(len(loc)) if loc[i] <= h / L])
    if loc[n] > 1 - h / L:
        return min([i for i in range(len(loc)) if loc[i] >= 1 - h / L])
    return n


def reduced_shear(g, B, H, L, sc, ldc, loc, V):
    return [shear(g, B, H, sc, ldc, 0, V[shear_section(loc, L, H, n)], False) for n in range(len(loc))]


def both_segments(L, sy, sz):
    return segments(L, sy) + segments(L, sz)


def reduction_beta(g, B, H, L, by, bz):
    return reduction(g, B, H, by * L, bz * L)


def apex_at(h0, a, b, r_in, L, arched):
    h = curved_height(L, h0, a, b, r_in, L / 2, arched)
    return (apex_curved(h, r_in) if arched else apex_pitched(h, r_in, a)) + [h]


def envelope(g, B, H, L, sc, ldc, loc, N, My, Vz):
    u = [[axial(g, B, H, sc, ldc, N[i]), shear(g, B, H, sc, ldc, 0, Vz[i], False), bending(g, B, H, sc, ldc, My[i], 0)]
         for i in range(len(loc))]
    return [max([x[j] for x in u]) for j in range(3)] + [u[i][j] for j in range(3) for i in range(len(loc))] + [0]


def design(g, B, H, L, sc, ldc, beta, sy, sz, loc, N, My, Mz):
    """column in compression: sections and buckling about both axes"""
    u = buckling(g, B, H, L, sc, ldc, beta, sy, sz, loc, N, My, Mz)
    for i in range(len(loc)):
        u += [axial(g, B, H, sc, ldc, N[i]), bending(g, B, H, sc, ldc, My[i], Mz[i]),
              compression_bending(g, B, H, sc, ldc, N[i], My[i], Mz[i])]
    return max(u)


def fire_member(g, B, H, L, t, N):
    bn = charring(g, 100)[1]
    d = char_unprotected(t, bn)
    return [axial(g, B - 2 * d, H - d, 1, 'inst', N), axial(g, B, H, 1, 'inst', N)]
