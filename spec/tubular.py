"""EN 1993-1-8, 7.5: welded joints between rectangular hollow sections."""
import math
from math import sqrt, sin, cos, radians


def strength(fy0, given):
    """Reduction for high strength steel (EN 1993-1-12)."""
    if given != 0:
        return given
    if fy0 <= 355:
        return 1.0
    if fy0 <= 460:
        return 0.9
    return 0.8


def stress_ratio(N0, M0, A0, W0, fy0, g5):
    """n > 0 in compression."""
    return (M0 / W0 - N0 / A0) / (fy0 * g5)


def kn(n, beta):
    if n > 0:
        return min(1.3 - 0.4 * n / beta, 1.0)
    return 1.0


def beta_k(b, h, b0):
    return (b[0] + b[1] + h[0] + h[1]) / (4 * b0)


def eccentricity(h0, h1, h2, th1, th2, g):
    s1 = sin(radians(th1))
    s2 = sin(radians(th2))
    return (h1 / (2 * s1) + h2 / (2 * s2) + g) * s1 * s2 / sin(radians(th1 + th2)) - h0 / 2


def gap(h0, h1, h2, th1, th2, e):
    s1 = sin(radians(th1))
    s2 = sin(radians(th2))
    return (e + h0 / 2) * sin(radians(th1 + th2)) / (s1 * s2) - h1 / (2 * s1) - h2 / (2 * s2)


def k_chord_face(r, k, fy0, t0, b0, beta, th, g5):
    """Table 7.12."""
    return r * 8.9 * k * fy0 * t0 ** 2 * sqrt(b0 / (2 * t0)) / sin(radians(th)) * beta / g5


def k_shear_area(h0, b0, t0, g):
    return (2 * h0 + b0 * sqrt(1 / (1 + 4 * g ** 2 / (3 * t0 ** 2)))) * t0


def k_shear_brace(r, fy0, Av, th, g5):
    return r * fy0 * Av / (sqrt(3) * sin(radians(th))) / g5


def k_shear_chord(r, fy0, A0, Av, V, Vpl, g5):
    if V / Vpl > 1:
        return 0.0
    return r * ((A0 - Av) * fy0 + Av * fy0 * sqrt(1 - (V / Vpl) ** 2)) / g5


def beff(b, t, fy, b0, t0, fy0):
    return b * min(10 * t0 / b0 * fy0 * t0 / (fy * t), 1)


def bep(b, b0, t0):
    return b * min(10 * t0 / b0, 1)


def k_brace(r, fy, h, b, t, be, g5):
    return r * fy * t * (2 * h - 4 * t + b + be) / g5


def k_punching(r, fy0, t0, h, b, be, th, g5):
    s = sin(radians(th))
    return r * fy0 * t0 / (sqrt(3) * s) * (2 * h / s + b + be) / g5


def y_chord_face(r, k, fy0, t0, beta, eta, th, g5):
    """Table 7.11, beta <= 0.85; the value at 0.85 for greater ones."""
    s = sin(radians(th))
    b = min(beta, 0.85)
    return r * k * fy0 * t0 ** 2 / ((1 - b) * s) * (2 * eta / s + 4 * sqrt(1 - b)) / g5


def slenderness(h0, t0, th, fy0, E):
    return 3.46 * (h0 / t0 - 2) * sqrt(1 / sin(radians(th))) / (math.pi * sqrt(E / fy0))


def chi(lam, alpha):
    phi = 0.5 * (1 + alpha * (lam - 0.2) + lam ** 2)
    return min(1 / (phi + sqrt(phi ** 2 - lam ** 2)), 1.0)


def y_side_wall_strength(N1, fy0, c):
    return c * fy0 if N1 < 0 else fy0


def x_side_wall_strength(N1, fy0, c, th):
    return 0.8 * c * fy0 * sin(radians(th)) if N1 < 0 else fy0


def side_wall(r, k, fb, t0, h, th, g5):
    s = sin(radians(th))
    return r * k * fb * t0 / s * (2 * h / s + 10 * t0) / g5


def x_side_wall(r, wall, h, h0, fy0, Av, th, g5):
    if cos(radians(th)) > h / h0:
        return min(wall, r * fy0 * Av / (sqrt(3) * sin(radians(th))) / g5)
    return wall


def y_governing(beta, gamma, face, wall, brace, punch):
    """Governing resistance, with interpolation between 0.85 and 1."""
    if beta < 0.85:
        return face
    res = min(face + (beta - 0.85) / 0.15 * (wall - face), brace)
    if beta <= 1 - 1 / gamma:
        return min(res, punch)
    return res


def k_use(N, face, shear, brace, punch, beta, gamma):
    low = min(face, shear, brace)
    if beta <= 1 - 1 / gamma:
        low = min(low, punch)
    return abs(N) / low


def pick(N0, low, high):
    return low if N0 < 0 else high


def brace_angle(x, y, e, slope):
    """Acute angle between the chord through the origin with the slope given and the brace from its point of eccentricity e (beyond the chord) to (x, y)."""
    L = sqrt(1 + slope ** 2)
    vx = x - e * slope / L
    vy = y + e / L
    a = math.degrees(math.acos((vx + slope * vy) / L / sqrt(vx ** 2 + vy ** 2)))
    return min(a, 180 - a)


def chord_use(N0, N0Rd):
    return abs(N0) / N0Rd if N0Rd > 0 else math.inf


def largest(xs):
    return max(xs)


def y_brace(r, fy, h, t, be, g5):
    return r * fy * t * (2 * h - 4 * t + 2 * be) / g5


def y_punching(r, fy0, t0, h, be, th, g5):
    s = sin(radians(th))
    return r * fy0 * t0 / (sqrt(3) * s) * (2 * h / s + 2 * be) / g5


def line_cross(vx, vy, px, py, ux, uy, qx, qy):
    """Point common to the lines p + t v and q + s u."""
    t = ((qx - px) * uy - (qy - py) * ux) / (vx * uy - vy * ux)
    return [px + t * vx, py + t * vy]


def line_unit(x1, y1, x2, y2, t):
    L = sqrt((x2 - x1) ** 2 + (y2 - y1) ** 2)
    return [[(x2 - x1) / L, (y2 - y1) / L], [x1 + t * (x2 - x1) / L, y1 + t * (y2 - y1) / L]]


def nearest(vx, vy, px, py, qx, qy):
    t = (qx - px) * vx + (qy - py) * vy
    return [px + t * vx, py + t * vy]


def rotated(x, y, th):
    return [x * cos(radians(th)) - y * sin(radians(th)), x * sin(radians(th)) + y * cos(radians(th))]


def face_plate(lp, bp, tp, b0, t0, h1, h2, t1, t2, th1, th2, g):
    """Table 7.18: at least these dimensions of the plate."""
    return [max(lp, 1.5 * (h1 / sin(radians(th1)) + g + h2 / sin(radians(th2)))), max(bp, b0 - 2 * t0), max(tp, 2 * max(t1, t2))]


def face_points(e, slope, side, h0, ends):
    """Intersection of the braces, the points of the chord face and of the chord line below it and those of the braces and the chord."""
    L = sqrt(1 + slope ** 2)
    ux, uy = 1 / L, side * slope / L
    nx, ny = side * uy, -side * ux
    px, py = e * nx, e * ny
    fx, fy = -h0 / 2 * nx, -h0 / 2 * ny
    res = [[px, py], [fx, fy], [0, 0]]
    chord = []
    for x, y in ends:
        vx, vy = x - px, side * y - py
        q = line_cross(vx, vy, px, py, ux, uy, fx, fy)
        res.append(q)
        chord.append(nearest(ux, uy, 0, 0, q[0], q[1]))
    return res + chord
