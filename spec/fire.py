"""EN 1993-1-2: carbon and stainless steel at elevated temperatures, fire curves, steel temperature."""
import math

T = [20, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1100, 1200]
# Table 3.1 and Table E.1
KY = [1, 1, 1, 1, 1, 0.78, 0.47, 0.23, 0.11, 0.06, 0.04, 0.02, 0]
KP = [1, 1, 0.807, 0.613, 0.42, 0.36, 0.18, 0.075, 0.05, 0.0375, 0.025, 0.0125, 0]
KE = [1, 1, 0.9, 0.8, 0.7, 0.6, 0.31, 0.13, 0.09, 0.0675, 0.045, 0.0225, 0]
KP02 = [1, 1, 0.89, 0.78, 0.65, 0.53, 0.3, 0.13, 0.07, 0.05, 0.03, 0.02, 0]
# Table C.1, grade 1.4301
S_K02 = [1, 0.82, 0.68, 0.64, 0.6, 0.54, 0.49, 0.4, 0.27, 0.14, 0.06, 0.03, 0]
S_KU = [1, 0.87, 0.77, 0.73, 0.72, 0.67, 0.58, 0.43, 0.27, 0.15, 0.07, 0.03, 0]
S_KE = [1, 0.96, 0.92, 0.88, 0.84, 0.8, 0.76, 0.71, 0.63, 0.45, 0.2, 0.1, 0]
S_KECT = [0.11, 0.05, 0.02, 0.02, 0.02, 0.02, 0.02, 0.02, 0.02, 0.02, 0.02, 0.02, 0.02]
S_EPSU = [0.4, 0.4, 0.4, 0.4, 0.4, 0.4, 0.35, 0.3, 0.2, 0.2, 0.2, 0.2, 0.2]
S_K2 = [0.26, 0.24, 0.19, 0.19, 0.19, 0.19, 0.22, 0.26, 0.35, 0.38, 0.4, 0.4, 0.4]
# Table D.1
TB = [20, 100, 150, 200, 300, 400, 500, 600, 700, 800, 900, 1000]
KB = [1, 0.968, 0.952, 0.935, 0.903, 0.775, 0.55, 0.22, 0.1, 0.067, 0.033, 0]

TABLES = {'ky': KY, 'kp': KP, 'kE': KE, 'kp02': KP02, 's.k02': S_K02, 's.ku': S_KU, 's.kE': S_KE, 's.kEct': S_KECT,
          's.epsU': S_EPSU, 's.ky': S_K2}


def table(xs, ys, t):
    """Linear interpolation, constant outside."""
    if t <= xs[0]:
        return ys[0]
    for i in range(len(xs) - 1):
        if t <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (t - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1]


def factor(name, t):
    return table(T, TABLES[name], t)


def factor_bolt(t):
    return table(TB, KB, t)


def scaled(name, t, x):
    return factor(name, t) * x


def fu_carbon(t, fyt):
    if t < 300:
        return 1.25 * fyt
    if t < 400:
        return fyt * (2 - 0.0025 * t)
    return fyt


def fu_steel(t, fy):
    return fu_carbon(t, scaled('ky', t, fy))


def stress(e, t, E, fy, hard):
    """Figure 3.1 and Annex A."""
    Et = factor('kE', t) * E
    fp = factor('kp', t) * fy
    f = factor('ky', t) * fy
    ep = fp / Et
    if e <= ep:
        return Et * e
    if e < 0.02:
        c = (f - fp) ** 2 / ((0.02 - ep) * Et - 2 * (f - fp))
        a2 = (0.02 - ep) * (0.02 - ep + c / Et)
        b2 = c * (0.02 - ep) * Et + c ** 2
        return fp - c + math.sqrt(b2) / math.sqrt(a2) * math.sqrt(a2 - (0.02 - e) ** 2)
    fu = f
    if hard:
        fu = fu_carbon(t, f)
    if e <= 0.15:
        if e < 0.04:
            return 50 * (fu - f) * e + 2 * f - fu
        return fu
    if e < 0.2:
        return fu * (1 - 20 * (e - 0.15))
    return 0


def stress_stainless(e, t, E, fy, fu):
    """Annex C, Figure C.1."""
    f02 = factor('s.k02', t) * fy
    Et = factor('s.kE', t) * E
    Ect = factor('s.kEct', t) * E
    eu = factor('s.epsU', t)
    ec = f02 / Et + 0.002
    if e <= ec:
        b = (1 - ec * Ect / f02) * Et * ec / ((Et * ec / f02 - 1) * f02)
        a = (Et * ec - f02) / (f02 * ec ** b)
        return Et * e / (1 + a * e ** b)
    fut = factor('s.ku', t) * fu
    x = (fut - f02) ** 2 / ((eu - ec) * Ect - 2 * (fut - f02))
    c2 = (eu - ec) * (eu - ec + x / Ect)
    d2 = x * (eu - ec) * Ect + x ** 2
    return f02 - x + math.sqrt(d2) / math.sqrt(c2) * math.sqrt(c2 - (eu - e) ** 2)


def elongation(t):
    if t < 750:
        return 1.2e-5 * t + 0.4e-8 * t ** 2 - 2.416e-4
    if t <= 860:
        return 1.1e-2
    return 2e-5 * t - 6.2e-3


def conductivity(t):
    if t < 800:
        return 54 - 3.33e-2 * t
    return 27.3


def heat(t):
    if t < 600:
        return 425 + 0.773 * t - 1.69e-3 * t ** 2 + 2.22e-6 * t ** 3
    if t < 735:
        return 666 + 13002 / (738 - t)
    if t < 900:
        return 545 + 17820 / (t - 731)
    return 650


def elongation_stainless(t):
    return (16 + 4.79e-3 * t - 1.243e-6 * t ** 2) * (t - 20) * 1e-6


def conductivity_stainless(t):
    return 14.6 + 1.27e-2 * t


def heat_stainless(t):
    return 450 + 0.28 * t - 2.91e-4 * t ** 2 + 1.34e-7 * t ** 3


def standard_fire(t):
    return 20 + 345 * math.log10(8 * t + 1)


def hydrocarbon_fire(t):
    return 20 + 1080 * (1 - 0.325 * math.exp(-0.167 * t) - 0.675 * math.exp(-2.5 * t))


def flux(tg, ts, phi, ef, em, ac):
    return ac * (tg - ts) + phi * em * ef * 5.67e-8 * ((tg + 273) ** 4 - (ts + 273) ** 4)


def temperatures(ksh, am, dt, n, t0, curve, stainless):
    """n explicit steps of EN 1993-1-2 (4.25)."""
    temps = [t0]
    times = [0]
    for i in range(n):
        if curve == 'hydrocarbon':
            g = hydrocarbon_fire(i * dt / 60)
            ac = 50
        else:
            g = standard_fire(i * dt / 60)
            ac = 25
        if stainless:
            c = heat_stainless(temps[-1])
            h = flux(g, temps[-1], 1, 1, 0.4, ac)
        else:
            c = heat(temps[-1])
            h = flux(g, temps[-1], 1, 1, 0.7, ac)
        temps.append(temps[-1] + ksh * am / (c * 7850) * h * dt)
        times.append((i + 1) * dt / 60)
    return [temps, times]


def shadow_i(h, b, A, U):
    """0.9 [Am/V]_box / [Am/V], with [Am/V] in 1/m for mm."""
    return [1000 * U / A, 1000 * 2 * (h + b) / A, 0.9 * 2 * (h + b) / U]
