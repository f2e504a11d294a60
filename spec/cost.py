"""Feature-based fabrication costs (Haapio 2012) written from the description of each cost centre."""
import math

WAGE = {'plate': 18.37, 'welding': 18.13, 'machine': 19.76}
MINUTES = 252 * 8 * 60
PAINT = {'alkyd': [(0.48, 80, 2.8), (0.45, 40, 3.6), (0.45, 40, 3.6)],
         'epoxy': [(0.50, 60, 4.2), (0.50, 60, 4.2), (0.48, 40, 4.9)],
         'polyurethane': [(0.50, 60, 4.2), (0.50, 60, 5.9)],
         'acryl': [(0.48, 60, 6.4), (0.48, 60, 6.4), (0.40, 40, 6.4)]}
WIRE = {'S355': 1.66, 'S420': 1.66, 'S550': 3.5, 'S690': 2.34}
GRADES = ['S235', 'S355', 'S420', 'S500', 'S550', 'S690', 'S700']


def annuity(p, i, n):
    g = (1 + i)**n
    return p * i * g / (g - 1)


def rate(length, width, workers, invest, resale, maint, years, labour=True):
    """Cost of one minute of a cost centre."""
    area = length * width
    estate = annuity(area * (1000 - 6 / 0.5), 0.05, 50)
    upkeep = area * 8.0 * 6.385 * 181 / 100
    r = (estate + upkeep + annuity(invest - resale, 0.05, years) + maint) / MINUTES
    if labour:
        r = r + workers * WAGE['machine'] * 1.7 / 60
    return r


def centre(length, width, workers, invest, resale, maint, years, tp, tn, cons, energy, fixed, utility, labour):
    """General centre with given times and unit costs."""
    return (tp + tn) * (rate(length, width, workers, invest, resale, maint, years, False) + labour) / utility + tp * (cons + energy) + fixed


def energy(kw):
    return kw * 0.1 / 60


def blasting(length, width, workers, speed, invest, resale, maint, piece):
    tp = piece / speed
    return tp * (rate(length, width, workers, invest, resale, maint, 20) + 0.042 * 0.75 + energy(40))


def blast(piece):
    return blasting(40, 10, 1, 3000, 200000, 0, 1000, piece)


def cutting(length, width, workers, invest, resale, maint, t, cut):
    if t <= 30:
        speed = 8.9212 * t**2 - 486.87 * t + 8155.8
        gas = 0.071 * 0.3 + 40 / 480
        power = 72
    else:
        speed = -4.1939 * t + 658.67
        gas = 0.0063 * 18.40 + (0.025 + 1.0e-5 * t**2 + 0.001 * t + 0.0224) * 4.18
        power = 0
    tp = cut / speed
    return (tp + 3) * rate(length, width, workers, invest, resale, maint, 20) + tp * (gas + energy(power))


def cut(t, length):
    return cutting(20, 10, 2, 280000, 0, 1000, t, length)


def film(paint):
    """Volume of paint per unit area with losses and its price."""
    v = 0
    c = 0
    for solid, dft, price in PAINT[paint]:
        d = dft / 1000
        p = (d + 0.01 + 0.3 * d) / solid
        v = v + p
        c = c + p * price / 1000000
    return v, c


def painting(length, width, workers, paint, area):
    v, c = film(paint)
    return v * area / 900000 * rate(length, width, workers, 0, 0, 0, 20) + c * area


def paint(area):
    return painting(15, 5, 1, 'alkyd', area)


def welding(length, width, workers, invest, resale, maint, years, grade, size, weld, kind):
    if kind == 'fillet':
        minutes = weld / 1000 * (0.4988 * size**2 - 0.0005 * size + 0.0021)
        kg = weld * size**2 * 7.85e-6
    else:
        minutes = weld / 1000 * (0.249 * size**2 + 0.0096 * size - 0.0506)
        kg = weld * size**2 / 2 * 7.85e-6
    tp = minutes + 0.5 + 0.5 + 0.27 + 3 * 0.09 + 0.05
    return tp * (rate(length, width, workers, invest, resale, maint, years) + energy(6)) + kg * (WIRE[grade] + 0.4 * 3.79)


def weld(size, length):
    return welding(15, 5, 1, 5000, 0, 0, 10, 'S355', size, length, 'fillet')


def feed(t):
    for lim, v in ((5, 120), (10, 100), (15, 90), (20, 80), (25, 70), (30, 60), (35, 50)):
        if t <= lim:
            return v
    return 40


def durability(t):
    for lim, v in ((5, 0.4), (10, 0.45), (15, 0.5), (20, 0.55), (25, 0.6), (30, 0.65), (35, 0.7)):
        if t <= lim:
            return v
    return 0.8


def sawing(length, width, workers, invest, resale, maint, years, member, bevels, ends):
    """ends: (height, thickness, solid area, whole area) of each sawn end."""
    tn = 2 + 2 * (0.25 + 0.5 + 0.5) + bevels + member / 20000
    tp = 0
    blades = 0
    for h, t, solid, whole in ends:
        tp = tp + h / 2 / feed(t) + solid / 1800
        blades = blades + whole / (1800 * 1350 * durability(t)) * 170
    return (tn + tp) * rate(length, width, workers, invest, resale, maint, years) + tp * energy(10) + blades


def saw(member, ends):
    return sawing(35, 15, 1, 310000, 0, 1000, 20, member, 0, ends)


def grade_add_on(grade):
    return 0 if grade == 'S235' else 35


def thickness_add_on(t):
    if t < 5:
        return 140
    for lim, v in ((6, 140), (7, 82), (8, 35), (10, 23), (12, 12), (20, 0), (50, 12), (60, 47), (80, 58)):
        if t < lim:
            return v
    return 140


def plate(b, h, t, grade, price, a, holes):
    edge = 2 * (b + h)
    c = b * h * t * 7.85e-6 * (price + grade_add_on(grade) + thickness_add_on(t)) / 1000
    c = c + cut(t, edge) + paint(2 * b * h + t * edge) + blast(max(b, h))
    if a > 0:
        c = c + weld(a, edge)
    if len(holes) > 0:
        total = 0
        for d in holes:
            total = total + math.pi * d
        c = c + cut(t, total)
    return c


def bolted_plate(b, h, t, grade, price, d0, n):
    return plate(b, h, t, grade, price, 0, [d0] * n)


def member(length, A, Au, unit):
    return [A * 7.85e-6 * unit * length, blast(length), paint(length * Au)]


def brace(length, H, B, T, A, Au, unit):
    return member(length, A, Au, unit) + [saw(length, [(B, T, 2 * H * T, A)] * 2)]


def truss(braces, top, bottom, joints):
    """Each list holds the cost parts of the members (material, blasting, painting[, sawing]); joints hold welding costs."""
    total = 0
    parts = [0, 0, 0, 0, 0]
    for m in braces + top + bottom:
        for i in range(len(m)):
            total = total + m[i]
            parts[i] = parts[i] + m[i]
    for j in joints:
        total = total + j
        parts[4] = parts[4] + j
    return [total] + parts


def joint(chord, braces):
    c = 0
    for (ux, uy), H, B, T, R in braces:
        cos = ux * chord[0] + uy * chord[1]
        sin = math.sqrt(1 - cos**2)
        c = c + weld(2 * 0.9 / math.sqrt(2) * 1.25 * 355 / 510 * T, 2 * (H / sin + B) - 8 * R + 2 * math.pi * R)
    return c


def custom(length, t, c):
    return [cutting(length, 10, 2, 280000, 0, 1000, t, c), 1, 900]

BOLT = {(20, 90): (1.96, 0.54, 0.65), (16, 60): (0.83, 0.27, 0.46), (24, 100): (3.61, 0.98, 0.82), (20, 40): (1.57, 0.54, 0.65)}
HOLE = {16: 18, 20: 22, 24: 26}


def end_plate(b, tf, tw, r, hw, h, bp, tp, top, bottom, rows, size, length, wf, ww, stiffeners):
    bolt, nut, washer = BOLT[(size, length)]
    flange = 2 * b + 2 * tf - 2 * r - tw + math.pi * r
    c = plate(bp, top + bottom + h, tp, 'S355', 1000, 0, [])
    c = c + rows * 2 * (bolt + nut + 2 * washer) + cut(tp, rows * 2 * HOLE[size] * math.pi)
    c = c + weld(wf, 2 * flange) + weld(ww, 2 * hw)
    for sb, sh, st in stiffeners:
        c = c + plate(sb, sh, st, 'S355', 1000, 0, [])
    return c


def fin_plate(tw, bp, hp, tp, n, size, length, a):
    bolt, nut, washer = BOLT[(size, length)]
    return bolted_plate(bp, hp, tp, 'S355', 1000, HOLE[size], n) + n * (bolt + nut + washer) + cut(tw, n * HOLE[size] * math.pi) \
        + weld(a, 2 * hp)
