"""Reference frame analysis: Euler-Bernoulli beams, rods and springs in the plane."""
import math

import numpy as np


def beam(E, A, I, L):
    """Beam stiffness (u1, v1, t1, u2, v2, t2)."""
    a = E * A / L
    k = E * I / L ** 3
    return np.array([[a, 0, 0, -a, 0, 0],
                     [0, 12 * k, 6 * k * L, 0, -12 * k, 6 * k * L],
                     [0, 6 * k * L, 4 * k * L ** 2, 0, -6 * k * L, 2 * k * L ** 2],
                     [-a, 0, 0, a, 0, 0],
                     [0, -12 * k, -6 * k * L, 0, 12 * k, -6 * k * L],
                     [0, 6 * k * L, 2 * k * L ** 2, 0, -6 * k * L, 4 * k * L ** 2]])


def from_moments(a, t11, t12, t22, L, P=0):
    """Stiffness from axial and end-rotation stiffnesses; the rest by equilibrium."""
    s1 = (t11 + t12) / L
    s2 = (t12 + t22) / L
    v = (s1 + s2) / L - P / L
    return np.array([[a, 0, 0, -a, 0, 0],
                     [0, v, s1, 0, -v, s2],
                     [0, s1, t11, 0, -s1, t12],
                     [-a, 0, 0, a, 0, 0],
                     [0, -v, -s1, 0, v, -s2],
                     [0, s2, t12, 0, -s2, t22]])


def beam_released(E, A, I, L, rel):
    """Beam with the released end forces in rel."""
    a = E * A / L
    if 0 in rel or 3 in rel:
        a = 0
    i = E * I / L
    if 2 in rel and 5 in rel:
        return from_moments(a, 0, 0, 0, L)
    if 2 in rel:
        return from_moments(a, 0, 0, 3 * i, L)
    if 5 in rel:
        return from_moments(a, 3 * i, 0, 0, L)
    return from_moments(a, 4 * i, 2 * i, 4 * i, L)


def joint_gamma(E, I, L, k):
    return E * I / L / k


def beam_semirigid(E, A, I, L, g1, g2):
    """Beam with rotational springs at its ends, g = EI/(L k)."""
    d = (1 + 4 * g1) * (1 + 4 * g2) - 4 * g1 * g2
    i = E * I / L
    return from_moments(E * A / L, 4 * i * (1 + 3 * g2) / d, 2 * i / d, 4 * i * (1 + 3 * g1) / d, L)


def beam_second(E, A, I, L, P, rel=()):
    """Stability functions of a member with compression P > 0."""
    i = E * I / L
    lam = math.sqrt(P / (E * I)) * L
    s = math.sin(lam)
    c = math.cos(lam)
    D = 2 - 2 * c - lam * s
    t11 = i * lam * (s - lam * c) / D
    t12 = i * lam * (lam - s) / D
    if 2 in rel and 5 in rel:
        return from_moments(E * A / L, 0, 0, 0, L, P)
    if 2 in rel:
        return from_moments(E * A / L, 0, 0, t11 - t12 ** 2 / t11, L, P)
    if 5 in rel:
        return from_moments(E * A / L, t11 - t12 ** 2 / t11, 0, 0, L, P)
    return from_moments(E * A / L, t11, t12, t11, L, P)


def geometric(P, L):
    """Consistent geometric stiffness, P > 0 in tension."""
    K = np.zeros((6, 6))
    g = P / (30 * L)
    G = [[36, 3 * L, -36, 3 * L],
         [3 * L, 4 * L ** 2, -3 * L, -L ** 2],
         [-36, -3 * L, 36, -3 * L],
         [3 * L, -L ** 2, -3 * L, 4 * L ** 2]]
    ix = [1, 2, 4, 5]
    for i in range(4):
        for j in range(4):
            K[ix[i], ix[j]] = g * G[i][j]
    return K


def rotation(x1, y1, x2, y2):
    L = math.sqrt((x2 - x1) ** 2 + (y2 - y1) ** 2)
    c = (x2 - x1) / L
    s = (y2 - y1) / L
    return L, np.array([[c, s, 0, 0, 0, 0], [-s, c, 0, 0, 0, 0], [0, 0, 1, 0, 0, 0],
                        [0, 0, 0, c, s, 0], [0, 0, 0, -s, c, 0], [0, 0, 0, 0, 0, 1]])


def to_global(K, T):
    return T.transpose().dot(K.dot(T))


def bar(EAL, X1, X2):
    """Axial element between points of the plane or of space."""
    n = len(X1)
    L2 = sum([(X2[i] - X1[i]) ** 2 for i in range(n)])
    K = np.zeros((2 * n, 2 * n))
    for i in range(n):
        for j in range(n):
            v = EAL * (X2[i] - X1[i]) * (X2[j] - X1[j]) / L2
            K[i, j] = v
            K[i + n, j + n] = v
            K[i, j + n] = -v
            K[i + n, j] = -v
    return K


def bar_geometric(P, X1, X2):
    """P/L on the displacement normal to the axis (plane)."""
    L2 = (X2[0] - X1[0]) ** 2 + (X2[1] - X1[1]) ** 2
    L = math.sqrt(L2)
    n = [-(X2[1] - X1[1]), X2[0] - X1[0]]
    K = np.zeros((4, 4))
    for i in range(2):
        for j in range(2):
            v = P / L * n[i] * n[j] / L2
            K[i, j] = v
            K[i + 2, j + 2] = v
            K[i, j + 2] = -v
            K[i + 2, j] = -v
    return K


def beam3(E, G, A, Iy, Iz, It, L):
    """Space beam (u, v, w, rx, ry, rz at both ends)."""
    K = np.zeros((12, 12))
    xy = beam(E, A, Iz, L)
    xz = beam(E, A, Iy, L)
    a = [0, 1, 5, 6, 7, 11]
    b = [0, 2, 4, 6, 8, 10]
    sg = [1, 1, -1, 1, 1, -1]
    for i in range(6):
        for j in range(6):
            if i % 3 != 0 or j % 3 != 0:
                K[b[i], b[j]] = sg[i] * sg[j] * xz[i, j]
            if i % 3 != 0 or j % 3 != 0:
                K[a[i], a[j]] = xy[i, j]
    K[0, 0] = K[6, 6] = E * A / L
    K[0, 6] = K[6, 0] = -E * A / L
    K[3, 3] = K[9, 9] = G * It / L
    K[3, 9] = K[9, 3] = -G * It / L
    return K


def end_forces(K, q, f):
    """Internal forces at the ends: axial (tension), moment, shear."""
    R = K.dot(q) - f
    return np.array([-R[0], R[3], -R[2], R[5], R[1], -R[4]])


# ------------------------------------------------------------- line loads
def fixed_end(qx1, qx2, qy1, qy2, L):
    """Consistent nodal loads of linearly varying axial and transverse loads."""
    return np.array([L * (2 * qx1 + qx2) / 6, L * (7 * qy1 + 3 * qy2) / 20, L ** 2 * (3 * qy1 + 2 * qy2) / 60,
                     L * (qx1 + 2 * qx2) / 6, L * (3 * qy1 + 7 * qy2) / 20, -L ** 2 * (2 * qy1 + 3 * qy2) / 60])


def fixed_end_second(qx, qy, L, P, E, I):
    """Uniform load on a member with compression P > 0."""
    u = math.sqrt(P / (E * I)) * L / 2
    m = qy * L ** 2 / (4 * u ** 2) * (1 - u * math.cos(u) / math.sin(u))
    return np.array([qx * L / 2, qy * L / 2, m, qx * L / 2, qy * L / 2, -m])


def release_load(f, L, rel, k11=4, k12=2):
    """Carry-over of the fixed-end moments at released ends; shears by equilibrium."""
    m1 = f[2]
    m2 = f[5]
    n1 = m1
    n2 = m2
    if 2 in rel and 5 in rel:
        n1 = 0
        n2 = 0
    elif 2 in rel:
        n1 = 0
        n2 = m2 - m1 * k12 / k11
    elif 5 in rel:
        n2 = 0
        n1 = m1 - m2 * k12 / k11
    dv = (n1 + n2 - m1 - m2) / L
    a1 = f[0]
    a2 = f[3]
    if 0 in rel:
        a1 = 0
        a2 = f[0] + f[3]
    if 3 in rel:
        a1 = f[0] + f[3]
        a2 = 0
    return np.array([a1, f[1] + dv, n1, a2, f[4] - dv, n2])


def local_load(d, coords, q1, q2, T):
    """Axial and transverse intensities at both ends."""
    if coords == 'local':
        if d == 'x':
            return q1, q2, 0, 0
        return 0, 0, q1, q2
    j = 0 if d == 'x' else 1
    return T[0, j] * q1, T[0, j] * q2, T[1, j] * q1, T[1, j] * q2


def line_load(d, coords, q1, q2, x1, y1, x2, y2, rel=()):
    L, T = rotation(x1, y1, x2, y2)
    a = local_load(d, coords, q1, q2, T)
    f = fixed_end(a[0], a[1], a[2], a[3], L)
    return release_load(f, L, rel), T


def rod(E, A, X1, X2):
    L = math.sqrt(sum([(X2[i] - X1[i]) ** 2 for i in range(len(X1))]))
    return bar(E * A / L, X1, X2)


def rod_force(E, A, x1, y1, x2, y2, u1, v1, u2, v2):
    L2 = (x2 - x1) ** 2 + (y2 - y1) ** 2
    n = E * A * ((u2 - u1) * (x2 - x1) + (v2 - v1) * (y2 - y1)) / L2
    return np.array([n, n])


def spring_force(k, x1, y1, x2, y2, u1, v1, u2, v2):
    L = math.sqrt((x2 - x1) ** 2 + (y2 - y1) ** 2)
    n = k * ((u2 - u1) * (x2 - x1) + (v2 - v1) * (y2 - y1)) / L
    return np.array([n, n])


def rotate(T, q):
    return T.dot(q)


def axes3(dx, dy, dz):
    """Local axes of a space beam: y horizontal, z in the vertical plane through the member (vertical member: y along Y)."""
    L = math.sqrt(dx ** 2 + dy ** 2 + dz ** 2)
    x = [dx / L, dy / L, dz / L]
    if dx == 0 and dy == 0:
        y = [0, 1, 0]
    else:
        h = math.sqrt(dx ** 2 + dy ** 2)
        y = [-dy / h, dx / h, 0]
    z = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
    return L, x, y, z


def turn3(dx, dy, dz):
    L, x, y, z = axes3(dx, dy, dz)
    T = np.zeros((12, 12))
    for b in range(4):
        for j in range(3):
            T[3 * b, 3 * b + j] = x[j]
            T[3 * b + 1, 3 * b + j] = y[j]
            T[3 * b + 2, 3 * b + j] = z[j]
    return L, T


def beam3_global(E, G, A, Iy, Iz, It, dx, dy, dz):
    L, T = turn3(dx, dy, dz)
    return to_global(beam3(E, G, A, Iy, Iz, It, L), T)


def beam3_forces(E, G, A, Iy, Iz, It, dx, dy, dz, q, f):
    L, T = turn3(dx, dy, dz)
    R = beam3(E, G, A, Iy, Iz, It, L).dot(T.dot(q)) - f
    return np.array([-R[0], R[6], -R[1], R[7], R[2], -R[8], -R[3], R[9], -R[4], R[10], R[5], -R[11]])


def line_load3(d, coords, q1, q2, dx, dy, dz):
    """Nodal loads of a space beam in global coordinates."""
    L, T = turn3(dx, dy, dz)
    j = {'x': 0, 'y': 1, 'z': 2}[d]
    a = [0, 0, 0]
    b = [0, 0, 0]
    for i in range(3):
        w = T[i, j]
        if coords == 'local':
            w = 1 if i == j else 0
        a[i] = w * q1
        b[i] = w * q2
    xy = fixed_end(a[0], b[0], a[1], b[1], L)
    xz = fixed_end(0, 0, a[2], b[2], L)
    f = np.array([xy[0], xy[1], xz[1], 0, -xz[2], xy[2], xy[3], xy[4], xz[4], 0, -xz[5], xy[5]])
    return T.transpose().dot(f)


def back(T, f):
    return T.transpose().dot(f)


def second_load(d, coords, q, L, T, P, E, I, rel):
    """Uniform load on a compressed member, second-order carry-over at releases."""
    a = local_load(d, coords, q, q, T)
    f = fixed_end_second(a[0], a[2], L, P, E, I)
    lam = math.sqrt(P / (E * I)) * L
    s = math.sin(lam)
    c = math.cos(lam)
    return back(T, release_load(f, L, rel, s - lam * c, lam - s))


def semirigid_load(d, coords, q1, q2, L, T, g1, g2):
    """Fixed-end moments through rotational springs: each end turns by moment/k."""
    a = local_load(d, coords, q1, q2, T)
    f = fixed_end(a[0], a[1], a[2], a[3], L)
    m1 = f[2]
    m2 = f[5]
    # end moment n_i = m_i - (stiffness of the bar)(joint rotation), joint rotation = g_i n_i L/EI
    # n1 (1 + 4 g1) + 2 g2 n2 = m1 ; 2 g1 n1 + n2 (1 + 4 g2) = m2
    D = (1 + 4 * g1) * (1 + 4 * g2) - 4 * g1 * g2
    n1 = (m1 * (1 + 4 * g2) - 2 * g2 * m2) / D
    n2 = (m2 * (1 + 4 * g1) - 2 * g1 * m1) / D
    dv = (n1 + n2 - m1 - m2) / L
    return back(T, np.array([f[0], f[1] + dv, n1, f[3], f[4] - dv, n2]))


def two_loads(a1, a2, b1, b2, L, T, local, p1, p2, p3):
    """Global transverse load, local axial load and a point load at the second end."""
    u = local_load('y', 'global', a1, a2, T)
    f = fixed_end(u[0] + b1, u[1] + b2, u[2], u[3], L)
    if local:
        return f
    return back(T, f) + np.array([0, 0, 0, p1, p2, p3])


# ------------------------------------------------------------- assembled frames
def assemble(n, mats, dofs):
    K = np.zeros((n, n))
    for e in range(len(mats)):
        m = mats[e]
        d = dofs[e]
        for i in range(len(d)):
            for j in range(len(d)):
                K[d[i], d[j]] = K[d[i], d[j]] + m[i, j]
    return K


def cantilever_tip(E, A, I, L, c, s, H, V, M):
    """Cantilever along (c, s) with tip loads H, V (global) and M: displacements of both ends and end forces."""
    n = H * c + V * s
    v = V * c - H * s
    ua = n * L / (E * A)
    ub = v * L ** 3 / (3 * E * I) + M * L ** 2 / (2 * E * I)
    th = v * L ** 2 / (2 * E * I) + M * L / (E * I)
    return [[0, 0, 0], [ua * c - ub * s, ua * s + ub * c, th], [n, n, M + v * L, M, -v, -v]]


def propped(E, A, I, L, q1, q2, qx):
    """Clamped at x=0, roller at x=L; transverse load from q1 to q2 (positive up), axial load qx."""
    # roller reaction from the deflection of the cantilever at its tip
    w = q1 * L ** 4 / (8 * E * I) + (q2 - q1) * L ** 4 * 11 / (120 * E * I)
    rb = -w * 3 * E * I / L ** 3
    load = (q1 + q2) * L / 2
    ra = -load - rb
    m = q1 * L ** 2 / 2 + (q2 - q1) * L ** 2 / 3 + rb * L
    th = q1 * L ** 3 / (6 * E * I) + (q2 - q1) * L ** 3 / (8 * E * I) + rb * L ** 2 / (2 * E * I)
    return [[0, 0, 0], [qx * L ** 2 / (2 * E * A), 0, th], [qx * L, 0, m, 0, ra, -rb]]


def clamped(L, q):
    return [[0, 0, 0], [0, 0, 0], [0, 0, q * L ** 2 / 12, q * L ** 2 / 12, -q * L / 2, q * L / 2]]


def two_spans(E, A1, A2, I, a, b, q, H):
    """Uniform load q (up) on the first span, axial load H at the far end."""
    mb = -q * a ** 3 / (8 * (a + b))          # moment over the middle support
    # end forces: my is hogging-positive under an upward load at the left end
    m1 = -mb
    r0 = -(q * a / 2) + m1 / a
    t1 = -m1 * b / (3 * E * I)
    t2 = m1 * b / (6 * E * I)
    t0 = q * a ** 3 / (24 * E * I) - m1 * a / (6 * E * I)
    u1 = H * a / (E * A1)
    u2 = u1 + H * b / (E * A2)
    return [[0, 0, t0 * -1 * -1], [u1, 0, t1], [u2, 0, t2], [H, H, 0, m1, r0, r0 + q * a], [H, H, m1, 0, -m1 / b, -m1 / b]]


def two_rods(a, b, h, H, V):
    """Rods from (0,0) and (b,0) to a node at (a,h)."""
    l1 = math.sqrt(a ** 2 + h ** 2)
    l2 = math.sqrt((b - a) ** 2 + h ** 2)
    # -n1 a/l1 + n2 (b-a)/l2 + H = 0 ; -n1 h/l1 - n2 h/l2 + V = 0
    n2 = (V * a / h - H) * l2 / b
    n1 = (V / h - n2 / l2) * l1
    return [n1, n2]


def column_second(E, A, I, L, F, H):
    """Cantilever with compression F and transverse tip load H."""
    lam = math.sqrt(F / (E * I)) * L
    tn = math.sin(lam) / math.cos(lam)
    w = H * L / F * (tn / lam - 1)
    th = H / F * (1 / math.cos(lam) - 1)
    return [-F * L / (E * A), w, th, H * L * tn / lam]


def column_loaded(E, A, I, L, F, H, q):
    """The same with a uniform transverse load."""
    K = beam_second(E, A, I, L, F)
    f = fixed_end_second(0, q, L, F, E, I)
    d = K[4, 4] * K[5, 5] - K[4, 5] * K[5, 4]
    p = H + f[4]
    v = (p * K[5, 5] - f[5] * K[4, 5]) / d
    th = (f[5] * K[4, 4] - p * K[5, 4]) / d
    return [-F * L / (E * A), v, th, f[2] - K[2, 4] * v - K[2, 5] * th]


def buckling_two_spans(E, A1, A2, I, a, b, F, m1, m2, w0, w1):
    d = [[0, 1, 2, 3, 4, 5], [3, 4, 5, 6, 7, 8]]
    K = assemble(9, [beam(E, A1, I, a), beam(E, A2, I, b)], d)
    G = assemble(9, [geometric(F, a), geometric(F, b)], d)
    free = [2, 3, 5, 6, 8]
    Kf = np.zeros((5, 5))
    Gf = np.zeros((5, 5))
    for i in range(5):
        for j in range(5):
            Kf[i, j] = K[free[i], free[j]]
            Gf[i, j] = G[free[i], free[j]]
    z = [np.array([[0, 0, m1[0]], [0, 0, m2[0]]]), np.array([[m1[1], 0, m1[2]], [m2[1], 0, m2[2]]]), np.array([[m1[3], 0, m1[4]], [m2[3], 0, m2[4]]])]
    return [Kf, Gf, z[0], z[1], z[2], np.array([w0, w1])]
