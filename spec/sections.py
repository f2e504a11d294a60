"""Reference geometry of steel cross-sections, from first principles."""
import math


# ---------------------------------------------------------------- hollow
def hollow_radius(T):
    """EN 10219-2: outer corner radius of cold-formed hollow sections."""
    if T <= 6:
        return 2 * T
    if T <= 10:
        return 2.5 * T
    return 3 * T


def _rr_area(h, b, r):
    return h * b - (4 - math.pi) * r ** 2


def _rr_inertia(h, b, r):
    """Rounded rectangle about its horizontal axis."""
    quarter = r ** 4 * (math.pi / 16 - 4 / (9 * math.pi))
    return (b - 2 * r) * h ** 3 / 12 + 2 * r * (h - 2 * r) ** 3 / 12 \
        + 4 * (quarter + math.pi * r ** 2 / 4 * (h / 2 - r + 4 * r / (3 * math.pi)) ** 2)


def _rr_plastic(h, b, r):
    return (b - 2 * r) * h ** 2 / 4 + 2 * r * (h - 2 * r) ** 2 / 4 \
        + 4 * math.pi * r ** 2 / 4 * (h / 2 - r + 4 * r / (3 * math.pi))


def rhs(H, B, T):
    """dict of properties of a rectangular hollow section."""
    R = hollow_radius(T)
    A = _rr_area(H, B, R) - _rr_area(H - 2 * T, B - 2 * T, R - T)
    Iy = _rr_inertia(H, B, R) - _rr_inertia(H - 2 * T, B - 2 * T, R - T)
    Iz = _rr_inertia(B, H, R) - _rr_inertia(B - 2 * T, H - 2 * T, R - T)
    Wply = _rr_plastic(H, B, R) - _rr_plastic(H - 2 * T, B - 2 * T, R - T)
    Wplz = _rr_plastic(B, H, R) - _rr_plastic(B - 2 * T, H - 2 * T, R - T)
    Rc = R - T / 2
    p = 2 * (H - T + B - T) - 2 * Rc * (4 - math.pi)
    Ah = (H - T) * (B - T) - Rc ** 2 * (4 - math.pi)
    It = T ** 3 * p / 3 + 4 * Ah ** 2 * T / p
    return {'R': R, 'A': A, 'Au': 2 * H + 2 * B - (8 - 2 * math.pi) * R,
            'I': [Iy, Iz], 'Wel': [2 * Iy / H, 2 * Iz / B], 'Wpl': [Wply, Wplz],
            'Ashear': [A * B / (B + H), A * H / (B + H)], 'It': It, 'Iw': 0.0}


def chs(D, T):
    d = D - 2 * T
    I = math.pi / 64 * (D ** 4 - d ** 4)
    A = math.pi / 4 * (D ** 2 - d ** 2)
    W = (D ** 3 - d ** 3) / 6
    return {'A': A, 'Au': math.pi * D, 'I': [I, I], 'Wel': [2 * I / D, 2 * I / D], 'Wpl': [W, W],
            'Ashear': [2 * A / math.pi, 2 * A / math.pi], 'It': 2 * I, 'Iw': 0.0}


def section_factor(Au, A):
    """A_m/V in 1/m from mm."""
    return 1000 * Au / A


# ---------------------------------------------------------------- rolled I
def rolled_i(h, b, tf, tw, r):
    """ArcelorMittal sales programme, notations and formulae."""
    pi = math.pi
    A = 2 * b * tf + (h - 2 * tf) * tw + (4 - pi) * r ** 2
    Iy = (b * h ** 3 - (b - tw) * (h - 2 * tf) ** 3) / 12 + 0.03 * r ** 4 \
        + 0.2146 * r ** 2 * (h - 2 * tf - 0.4468 * r) ** 2
    Iz = (2 * tf * b ** 3 + (h - 2 * tf) * tw ** 3) / 12 + 0.03 * r ** 4 \
        + 0.2146 * r ** 2 * (tw + 0.4468 * r) ** 2
    Wply = tw * h ** 2 / 4 + (b - tw) * (h - tf) * tf + (4 - pi) / 2 * r ** 2 * (h - 2 * tf) \
        + (3 * pi - 10) / 3 * r ** 3
    Wplz = b ** 2 * tf / 2 + (h - 2 * tf) * tw ** 2 / 4 + (10 / 3 - pi) * r ** 3 \
        + (2 - pi / 2) * tw * r ** 2
    x = tw / tf
    y = r / tf
    a1 = -0.042 + 0.2204 * x + 0.1355 * y - 0.0865 * x * y - 0.0725 * x ** 2
    D1 = ((tf + r) ** 2 + tw * (r + tw / 4)) / (2 * r + tf)
    It = 2 * b * tf ** 3 / 3 + (h - 2 * tf) * tw ** 3 / 3 + 2 * a1 * D1 ** 4 - 0.42 * tf ** 4
    return {'A': A, 'Au': 4 * b + 2 * h - 2 * tw - (8 - 2 * pi) * r,
            'I': [Iy, Iz], 'Wel': [2 * Iy / h, 2 * Iz / b], 'Wpl': [Wply, Wplz],
            'Ashear': A - 2 * b * tf + (tw + 2 * r) * tf, 'It': It,
            'Iw': tf * b ** 3 / 24 * (h - tf) ** 2,
            'hw': h - 2 * tf - 2 * r, 'cf': (b - tw - 2 * r) / 2}


def rolled_i_curves(h, b, tf, fy):
    """EN 1993-1-1, Table 6.2, rolled sections: imperfection factors about y and z."""
    if h > 1.2 * b:
        if tf <= 40:
            c = ['a', 'b'] if fy <= 420 else ['a0', 'a0']
        else:
            c = ['b', 'c'] if fy <= 420 else ['a', 'a']
    else:
        if tf <= 100:
            c = ['b', 'c'] if fy <= 420 else ['a', 'a']
        else:
            c = ['d', 'd'] if fy <= 420 else ['c', 'c']
    return [ALPHA[c[0]], ALPHA[c[1]]]


ALPHA = {'a0': 0.13, 'a': 0.21, 'b': 0.34, 'c': 0.49, 'd': 0.76}


def rolled_i_lt(h, b):
    """EN 1993-1-1, Tables 6.4 and 6.5: [general case, rolled sections case]."""
    if h <= 2 * b:
        return [ALPHA['a'], ALPHA['b']]
    return [ALPHA['b'], ALPHA['c']]


# ---------------------------------------------------------------- welded I
def welded_i(h, tw, bt, bb, tt, tb):
    """Three plates."""
    hw = h - tt - tb
    At, Aw, Ab = bt * tt, hw * tw, bb * tb
    A = At + Aw + Ab
    zt, zw, zb = h - tt / 2, tb + hw / 2, tb / 2
    ze = (At * zt + Aw * zw + Ab * zb) / A
    Iy = bt * tt ** 3 / 12 + At * (zt - ze) ** 2 + tw * hw ** 3 / 12 + Aw * (zw - ze) ** 2 \
        + bb * tb ** 3 / 12 + Ab * (zb - ze) ** 2
    It_ = tt * bt ** 3 / 12
    Ib_ = tb * bb ** 3 / 12
    Iz = It_ + Ib_ + hw * tw ** 3 / 12
    return {'A': A, 'hw': hw, 'ze': ze, 'I': [Iy, Iz],
            'Wel': [Iy / max(ze, h - ze), Iz / (max(bt, bb) / 2)],
            'It': (bt * tt ** 3 + hw * tw ** 3 + bb * tb ** 3) / 3,
            'Iw': It_ * (1 - It_ / Iz) * (h - tt / 2 - tb / 2) ** 2,
            'Au': 2 * bt + 2 * bb + 2 * tt + 2 * tb + 2 * hw - 2 * tw}


def welded_i_wpl(h, tw, bt, bb, tt, tb):
    """Plastic moduli: first moments of the halves about the equal-area axis."""
    hw = h - tt - tb
    At, Aw, Ab = bt * tt, hw * tw, bb * tb
    A = At + Aw + Ab
    zt, zw, zb = h - tt / 2, tb + hw / 2, tb / 2
    if At >= A / 2:
        d = h - A / 2 / bt
        Wy = Ab * (d - zb) + Aw * (d - zw) + bt * (d - tb - hw) ** 2 / 2 + bt * (h - d) ** 2 / 2
    elif Ab >= A / 2:
        d = A / 2 / bb
        Wy = At * (zt - d) + Aw * (zw - d) + bb * (tb - d) ** 2 / 2 + bb * d ** 2 / 2
    else:
        d = tb + (A / 2 - Ab) / tw
        Wy = At * (zt - d) + Ab * (d - zb) + tw * (h - tt - d) ** 2 / 2 + tw * (d - tb) ** 2 / 2
    return [Wy, (tt * bt ** 2 + tb * bb ** 2 + hw * tw ** 2) / 4]


def welded_i_pna(h, tw, bt, bb, tt, tb):
    hw = h - tt - tb
    At, Aw, Ab = bt * tt, hw * tw, bb * tb
    A = At + Aw + Ab
    if At >= A / 2:
        return h - A / 2 / bt
    if Ab >= A / 2:
        return A / 2 / bb
    return tb + (A / 2 - Ab) / tw


def eta_shear(fy):
    """EN 1993-1-5, 5.1: eta = 1.2 up to S460, 1.0 above."""
    if fy <= 460:
        return 1.2
    return 1.0


def welded_i_curves(tt, tb):
    if max(tt, tb) <= 40:
        return [ALPHA['b'], ALPHA['c']]
    return [ALPHA['c'], ALPHA['d']]


def welded_i_lt(h, bt, bb):
    if h <= 2 * min(bt, bb):
        return ALPHA['c']
    return ALPHA['d']


# ---------------------------------------------------------------- derived
def gyration(I, A):
    return math.sqrt(I / A)


def polar(Iy, Iz, A):
    return math.sqrt((Iy + Iz) / A)


def weight(A):
    """kg/mm with steel at 7850 kg/m3."""
    return 7850e-9 * A


def self_weight(A):
    return 9.81 * 7850e-9 * A
