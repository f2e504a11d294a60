"""EN 1993-1-8: bolts, equivalent T-stubs and components of end-plate joints."""
import math
from math import sqrt


def bolt_shear(fub, A, av, g2):
    return av * fub * A / g2


def bolt_tension(fub, As, k2, g2):
    return k2 * fub * As / g2


def bolt_bearing(fub, fu, d, d0, t, e1, e2, p1, p2, end, edge, g2):
    """Table 3.4."""
    if end:
        ad = e1 / (3 * d0)
    else:
        ad = p1 / (3 * d0) - 0.25
    ab = min(ad, fub / fu, 1.0)
    if edge:
        k1 = min(2.8 * e2 / d0 - 1.7, 1.4 * p2 / d0 - 1.7, 2.5)
    else:
        k1 = min(1.4 * p2 / d0 - 1.7, 2.5)
    return k1 * ab * fu * d * t / g2


def punching(dm, tp, fu, g2):
    return 0.6 * math.pi * dm * tp * fu / g2


def shear_tension(FvEd, FvRd, FtEd, FtRd):
    return FvEd / FvRd + FtEd / (1.4 * FtRd)


def block_tearing(fy, fu, Ant, Anv, concentric, g0, g2):
    """3.10.2."""
    V = fy * Anv / (sqrt(3) * g0)
    if concentric:
        return fu * Ant / g2 + V
    return 0.5 * fu * Ant / g2 + V


def stiffness_ratio(u, psi):
    if u <= 2 / 3:
        return 1.0
    return (1.5 * u) ** psi


def weld_double(beta, fy, fu, g0, g2):
    return beta * g2 * fy / (sqrt(2) * g0 * fu)


def weld_single(beta, fy, fu, g0, g2):
    return sqrt(2) * beta * g2 * fy / (g0 * fu)


def omega(beta, beff, tw, Avc):
    """Table 6.3."""
    x = beff * tw / Avc
    w1 = 1 / sqrt(1 + 1.3 * x ** 2)
    w2 = 1 / sqrt(1 + 5.2 * x ** 2)
    if beta <= 0.5:
        return 1.0
    if beta < 1:
        return w1 + 2 * (1 - beta) * (1 - w1)
    return w1 + (beta - 1) * (w2 - w1)


def web_shear(fy, Avc, g0):
    return 0.9 * fy * Avc / (sqrt(3) * g0)


def web_compression_width(tfb, ap, tfc, r, tp, ebottom):
    sp = min(2 * tp, tp + ebottom - sqrt(2) * ap)
    return tfb + 2 * sqrt(2) * ap + 5 * (tfc + r) + sp


def web_compression(beff, dwc, twc, fy, E, Avc, beta, sigma, g0, g1):
    """6.2.6.2."""
    lam = 0.932 * sqrt(beff * dwc * fy / (E * twc ** 2))
    if lam <= 0.72:
        rho = 1.0
    else:
        rho = (lam - 0.2) / lam ** 2
    if sigma <= 0.7 * fy:
        kwc = 1.0
    else:
        kwc = 1.7 - sigma / fy
    F = omega(beta, beff, twc, Avc) * kwc * beff * twc * fy
    return min(F / g0, rho * F / g1)


def stiffened_web(eps, twc, b, t, h, fy, g0, g1):
    """EN 1993-1-5, 9.1: double-sided stiffener as a strut."""
    A = (30 * eps * twc + t) * twc + 2 * b * t
    I = (2 * b + twc) ** 3 * t / 12
    lam = h / sqrt(I / A) / (93.9 * eps)
    if lam > 0.2:
        phi = 0.5 * (1 + 0.49 * (lam - 0.2) + lam ** 2)
        return min(1.0, 1 / (phi + sqrt(phi ** 2 - lam ** 2))) * A * fy / g1
    return A * fy / g0


def web_tension(beff, twc, fy, Avc, beta, g0):
    return omega(beta, beff, twc, Avc) * beff * twc * fy / g0


def alpha_new(e, m, m2):
    """prEN 1993-1-8:2019."""
    return min(max(4 + 1.67 * e / m * (m / m2) ** 0.67, 4 + 1.25 * e / m), 8.0)


def pair(a, b):
    """Effective lengths of modes 1 and 2 from circular and other patterns."""
    return [min(a, b), b]


def column_row(kind, m, e, e1, alpha):
    """Tables 6.4 and 6.5, rows considered individually: circular and other patterns."""
    if kind == 'inner':
        return [2 * math.pi * m, 4 * m + 1.25 * e]
    if kind == 'end':
        return [min(2 * math.pi * m, math.pi * m + 2 * e1), min(4 * m + 1.25 * e, 2 * m + 0.625 * e + e1)]
    if kind == 'adjacent':
        return [2 * math.pi * m, alpha * m]
    return [min(2 * math.pi * m, math.pi * m + 2 * e1), e1 + alpha * m - (2 * m + 0.625 * e)]


def column_group(kind, m, e, e1, p, alpha):
    """Tables 6.4 and 6.5, rows considered as part of a group."""
    if kind == 'inner':
        return [2 * p, p]
    if kind == 'end':
        return [min(math.pi * m + p, 2 * e1 + p), min(2 * m + 0.625 * e + 0.5 * p, e1 + 0.5 * p)]
    return [math.pi * m + p, 0.5 * p + alpha * m - (2 * m + 0.625 * e)]


def plate_row(kind, m, e, ex, w, bp, alpha):
    """Table 6.6, rows considered individually (m is mx for the row outside the flange)."""
    if kind == 'outside':
        return [min(2 * math.pi * m, math.pi * m + w, math.pi * m + 2 * e),
                min(4 * m + 1.25 * ex, e + 2 * m + 0.625 * ex, 0.5 * bp, 0.5 * w + 2 * m + 0.625 * ex)]
    if kind == 'first':
        return [2 * math.pi * m, alpha * m]
    return [2 * math.pi * m, 4 * m + 1.25 * e]


def plate_group(kind, m, e, p, alpha):
    """Table 6.6, rows considered as part of a group."""
    if kind == 'first':
        return [math.pi * m + p, 0.5 * p + alpha * m - (2 * m + 0.625 * e)]
    if kind == 'inner':
        return [2 * p, p]
    return [math.pi * m + p, 2 * m + 0.625 * e + 0.5 * p]


def tstub(l1, l2, tf, fy, m, n, Ft, g0):
    """Table 6.2: resistance of each failure mode."""
    M1 = 0.25 * l1 * tf ** 2 * fy / g0
    M2 = 0.25 * l2 * tf ** 2 * fy / g0
    return [4 * M1 / m, (2 * M2 + n * Ft) / (m + n), Ft]


def least(xs):
    return min(xs)


def panel_extra(bc, tfc, fyc, ds, t1, f1, t2, f2, g0):
    """6.2.6.1(4): additional shear resistance of a web panel with two stiffeners."""
    Mf = 0.25 * bc * tfc ** 2 * fyc / g0
    M1 = 0.25 * bc * t1 ** 2 * f1 / g0
    M2 = 0.25 * bc * t2 ** 2 * f2 / g0
    return min(4 * Mf / ds, (2 * Mf + M1 + M2) / ds)


def moment(rows, groups, arms, Fcom):
    """6.2.7.2: rows from the top, limited by their groups and by the compression side.

    rows: resistances of the tension rows; groups: pairs of a list of rows and the resistance of the group."""
    F = list(rows)
    for g in groups:
        total = 0
        for i in g[0]:
            F[i] = min(F[i], g[1] - total)
            total += F[i]
    total = 0
    M = 0
    for i in range(len(F)):
        f = min(F[i], Fcom - total)
        total += f
        M += f * arms[i]
    return M


def initial_stiffness(E, ks, hs, k1, k2):
    """6.3.1 with the equivalent stiffness of 6.3.3.1; k1 is for unit lever arm."""
    num = 0
    den = 0
    for i in range(len(ks)):
        num += ks[i] * hs[i] ** 2
        den += ks[i] * hs[i]
    z = num / den
    keq = den / z
    return E * z ** 2 / (z / k1 + 1 / k2 + 1 / keq)


def initial_stiffness_stiffened(E, ks, hs, k1):
    num = 0
    den = 0
    for i in range(len(ks)):
        num += ks[i] * hs[i] ** 2
        den += ks[i] * hs[i]
    z = num / den
    keq = den / z
    return E * z ** 2 / (z / k1 + 1 / keq)


def series(ks):
    s = 0
    for k in ks:
        s += 1 / k
    return 1 / s


def row_places(z, eb, p, bp, tp, etop, hb, tfb, twb, bc, tfc, twc, rc, af, aw, outside, ts, a_s):
    """Distances of a bolt row: 6.2.4.1, 6.2.6.4, 6.2.6.5 and figures 6.8, 6.10, 6.11."""
    r2 = sqrt(2)
    ecol = eb + (bc - bp) / 2
    mx = z - hb / 2 - 0.8 * r2 * af
    if outside:
        m = mx
        ms = z - (hb / 2 - tfb / 2 + ts / 2 + 0.8 * r2 * a_s)
    else:
        m = (p - twb) / 2 - 0.8 * r2 * aw
        ms = hb / 2 - tfb / 2 - ts / 2 - 0.8 * r2 * a_s - z
    if bp < bc:
        emin = eb
    else:
        emin = ecol
    return [emin, ecol, hb / 2 + etop - z, mx, p, (p - twc) / 2 - 0.8 * rc, m, hb / 2 - tfb - 0.8 * r2 * af - z, eb, ms, z + (hb - tfb) / 2]


def strain_length(tp, tfc, washer, head, nut):
    return tp + tfc + 2 * washer + (head + nut) / 2


def row_stiffness(bcol, bplate, mc, mp, twc, dwc, tfc, tp, As, Lb):
    """Components 3, 4, 5 and 10 of Table 6.11."""
    return [0.7 * bcol * twc / dwc, 0.9 * bcol * tfc ** 3 / mc ** 3, 0.9 * bplate * tp ** 3 / mp ** 3, 1.6 * As / Lb]


def some_stress():
    return 17
