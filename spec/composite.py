"""Reference of the C24 rules: EN 1992-1-1 materials and creep, EN 1994-1-1 beams, studs and filled tubes."""
import math

CLASSES = {'C12/15': (12, 15), 'C16/20': (16, 20), 'C20/25': (20, 25), 'C25/30': (25, 30), 'C30/37': (30, 37), 'C35/45': (35, 45),
           'C40/50': (40, 50), 'C45/55': (45, 55), 'C50/60': (50, 60)}
EA = 210000


def modulus(name):
    return 22000 * ((CLASSES[name][0] + 8) / 10) ** 0.3


def concrete_class(name, a, g):
    fck, cube = CLASSES[name]
    return (fck, cube, fck + 8, modulus(name), 0.85 * fck / 1.5, fck / 1.5, a * fck / g, 0.85 * fck / 1.5, a * fck / g,
            0.6 * (1 - fck / 250))


def creep(name, h0, t, t0, RH):
    """EN 1992-1-1, Annex B."""
    RH = 50 if RH is None else RH
    fcm = CLASSES[name][0] + 8
    dry = (1 - RH / 100) / (0.1 * h0 ** (1 / 3))
    if fcm <= 35:
        a1, a2, a3 = 1, 1, 1
    else:
        a1, a2, a3 = (35 / fcm) ** 0.7, (35 / fcm) ** 0.2, (35 / fcm) ** 0.5
    phi_rh = (1 + dry * a1) * a2
    beta_h = min(1.5 * (1 + (0.012 * RH) ** 18) * h0 + 250 * a3, 1500 * a3)
    phi0 = phi_rh * 16.8 / math.sqrt(fcm) / (0.1 + t0 ** 0.2)
    return phi0 * ((t - t0) / (beta_h + t - t0)) ** 0.3


def rebar(d, d2):
    def area(x):
        return math.pi * x ** 2 / 4

    def second(x):
        return math.pi * x ** 4 / 64
    return (d / 2, area(d), second(d), 500, 500 / 1.15, EA, area(d) * 7850e-9 * 1e3), area(d2), second(d2)


def stud(kind, length, fu, fck, Ecm):
    """EN 1994-1-1, 6.6.3.1."""
    d = {19: 19, 22: 22, 25: 19}[kind]
    alpha = 1 if length / d > 4 else 0.2 * (length / d + 1)
    return min(0.8 * fu * math.pi * d ** 2 / 4 / 1.25, 0.29 * alpha * d ** 2 * math.sqrt(fck * Ecm) / 1.25)


def parts(case):
    dims, A, I, fy, fck, Ecm, hc, ha, L, b0, RH = case[:11]
    ha = 0 if ha is None else ha
    b = b0 + L / 4
    return b, b * hc, b * hc ** 3 / 12, hc / 2, hc + ha + dims[0] / 2, hc + ha


def combine(E1, A1, I1, y1, E2, A2, I2, y2):
    """Centroid, axial and bending stiffness of two parts working together."""
    y = (E1 * A1 * y1 + E2 * A2 * y2) / (E1 * A1 + E2 * A2)
    return y, E1 * A1 + E2 * A2, E1 * I1 + E2 * I2 + E1 * A1 * (y1 - y) ** 2 + E2 * A2 * (y2 - y) ** 2


def elastic(case):
    dims, A, I, fy, fck, Ecm, hc, ha, L, b0, RH = case[:11]
    b, Ac, Ic, yc, ya, h = parts(case)
    y, EAt, EIt = combine(EA, A, I, ya, Ecm, Ac, Ic, yc)
    a = ya - yc
    return (h, 2 * hc, b, yc, ya, Ac, Ic, EA * A, EA * I, Ecm * Ac, Ecm * Ic, EA / Ecm, y, EAt, ya - y, y - yc, EIt, a,
            a ** 2 * EA * A * Ecm * Ac / (EA * A + Ecm * Ac) / (EA * I + Ecm * Ic))


def lasting(case, t0):
    name = case[11] if len(case) > 11 else 'C30/37'
    return creep(name, 2 * case[6], 1e8, 28, case[10]), creep(name, 2 * case[6], 1e8, t0, case[10])


def reduced(case, t0):
    Ecm = case[5]
    b, Ac, Ic, yc, ya, h = parts(case)
    phi = lasting(case, t0)
    Ecc, Ecs = Ecm / (1 + 1.1 * phi[0]), Ecm / (1 + 0.55 * lasting(case, 1)[1])
    return (Ecc, Ecs, EA / Ecc, EA / Ecs, Ecc * Ac, Ecc * Ic), Ecm / (1 + 1.1 * phi[1])


def long_term(case):
    A, I, Ecm = case[1], case[2], case[5]
    b, Ac, Ic, yc, ya, h = parts(case)
    Ecc = Ecm / (1 + 1.1 * case[11][0])
    y, EAt, EIt = combine(EA, A, I, ya, Ecc, Ac, Ic, yc)
    return y, EAt, EIt, combine(EA, A, I, ya, Ecm, Ac, Ic, yc)[2]


def plastic(case):
    """Stress blocks about the bottom of the concrete; the fillets are left out of the compressed steel."""
    dims, A, I, fy, fck, Ecm, hc, ha, L, b0, RH = case[:11]
    b, Ac, Ic, yc, ya, h = parts(case)
    H, bf, tf, tw, r = dims
    Ra = fy * A
    # the code takes the design strength of concrete with its own factor
    Rc = 0.85 * (0.85 * fck / 1.5) * Ac
    Rf = fy * bf * tf
    if Ra < Rc:
        e = Ra / Rc * hc
        return Ra, Rc, Rf, e, Ra * (ya - e / 2)
    if Ra - Rc <= 2 * Rf:
        d = (Ra - Rc) / 2 / (fy * bf)
        return Ra, Rc, Rf, h + d, Ra * (ya - h) + Rc * (h - yc) - 2 * fy * bf * d * (d / 2)
    d = (Ra - Rc - 2 * Rf) / 2 / (fy * tw)
    return Ra, Rc, Rf, h + tf + d, Ra * (ya - h) + Rc * (h - yc) - 2 * Rf * tf / 2 - 2 * fy * tw * d * (tf + d / 2)


def bars(case):
    H, B, T, A, I, W, fy, fck, Ecm, d, u, v, L = case[:13]
    z, y = H / 2 - T - u - d / 2, B / 2 - T - v - d / 2
    As = math.pi * d ** 2
    return z, y, As, 4 * (math.pi * d ** 4 / 64 + As / 4 * z ** 2), As * z


def outer(T):
    if T <= 6:
        return 2 * T
    if T <= 10:
        return 2.5 * T
    return 3 * T


def core(case):
    """Concrete inside the tube with rounded corners, without the bars: area, second moment, plastic modulus."""
    H, B, T = case[:3]
    r = outer(T) - T
    h, b = H - 2 * T, B - 2 * T
    z, y, As, Is, Ws = bars(case)
    A = h * b - (4 - math.pi) * r ** 2 - As
    quarter = math.pi * r ** 4 / 16 - math.pi * r ** 2 / 4 * (4 * r / 3 / math.pi) ** 2
    I = b * h ** 3 / 12 - 4 * (r ** 4 / 12 + r ** 2 * (h / 2 - r / 2) ** 2) + 4 * (
        quarter + math.pi * r ** 2 / 4 * (h / 2 - r + 4 * r / 3 / math.pi) ** 2) - Is
    W = b * h ** 2 / 4 - 4 * (r ** 2 * (h / 2 - r / 2) - math.pi * r ** 2 / 4 * (h / 2 - r + 4 * r / 3 / math.pi)) - Ws
    return A, I, W


def filling(case):
    H, B, T, A, I, W, fy, fck, Ecm, d, u, v, L = case[:13]
    z, y, As, Is, Ws = bars(case)
    Ac, Ic, Wc = core(case)
    return (z, y, u, v, As, Is, Ws, EA * Is, Ac, Ic, Wc, Ecm * Ac, Ecm * Ic, EA * A, EA * I, EA * A + Ecm * Ac, W, As / Ac,
            A * 7850e-9 * 1e3 * 9.81e-3 + Ac * 1e-6 * 24 + As * 7850e-9 * 1e3 * 9.81e-3)


def corners(case, x, y):
    H, B, T = case
    return x, y, H / 2 - T - y - 8, B / 2 - T - x - 8


def effective(case, N, G):
    name = case[13] if len(case) > 13 else 'C30/37'
    Ecm = case[8]
    phi = name[0] if isinstance(name, tuple) else creep(name, 1e11, 1e11, 28, None)
    return Ecm / (1 + G / N * phi)


def stiffness(case, N, G):
    z, y, As, Is, Ws = bars(case)
    I = case[4]
    Ic = core(case)[1]
    E = effective(case, N, G)
    return EA * I + EA * Is + 0.6 * E * Ic, 0.9 * (EA * I + EA * Is + 0.5 * E * Ic)


def resultants(case):
    H, B, T, A, I, W, fy, fck, Ecm, d, u, v, L = case[:13]
    As = bars(case)[2]
    Ac = core(case)[0]
    return fy * A + 500 / 1.15 * As + fck / 1.5 * Ac, fy * A + 500 * As + fck * Ac, fck / 1.5 * Ac


def column(case, N, G, k, sign):
    A, fy, L = case[3], case[6], case[12]
    e1, e2 = stiffness(case, N, G)
    pl, rk, pm = resultants(case)
    return (effective(case, N, G), e1, e2, fy * A, pl, rk, pm, math.pi ** 2 * e1 / (k * L) ** 2, math.pi ** 2 * e2 / (k * L) ** 2,
            fy * A / pl)


def buckling(case, N, G):
    L = case[12]
    pl, rk, pm = resultants(case)
    s = math.sqrt(rk / (math.pi ** 2 * stiffness(case, N, G)[0] / L ** 2))
    few = bars(case)[2] / core(case)[0] <= 0.03
    a = 0.21 if few else 0.34
    phi = 0.5 * (1 + a * (s - 0.2) + s ** 2)
    return s, min(1 / (phi + math.sqrt(phi ** 2 - s ** 2)), 1) * pl, L / (300 if few else 200)


def bending(case):
    """Stress blocks of EN 1994-1-1, Annex C of the guides: full section less the parts within hn of the axis."""
    H, B, T, A, I, W, fy, fck, Ecm, d, u, v, L = case[:13]
    z, y, As, Is, Ws = bars(case)
    Ac, Ic, Wc = core(case)
    fs, fc = 500 / 1.15, fck / 1.5
    top = fy * W + fs * Ws + 0.5 * fc * Wc
    hn = fc * Ac / (2 * B * fc + 4 * T * (2 * fy - fc))
    ws = 0
    if hn >= z - d / 2:
        hn = (fc * Ac - As * (2 * fs - fc)) / (2 * B * fc + 4 * T * (2 * fy - fc))
        ws = Ws
    wc = (B - 2 * T) * hn ** 2 - ws
    wa = B * hn ** 2 - wc - ws
    return top, top - fy * wa - fs * ws - 0.5 * fc * wc, 0.9 if fy <= 355 else 0.8


def moments(a, b, N):
    if abs(a) <= abs(b):
        return abs(N), a, b
    return abs(N), b, a
