"""Reference rules of EN 1993-1-1 and EN 1993-1-5."""
import math


# ------------------------------------------------------------ 6.2 cross-section
def n_rd(A, fy, g0):
    return A * fy / g0


def nu_rd(Anet, fu, g2):
    return 0.9 * Anet * fu / g2


def m_rd(W, fy, g0):
    return W * fy / g0


def v_rd(Av, fy, g0):
    return Av * fy / (g0 * math.sqrt(3))


def epsilon(fy):
    return math.sqrt(235 / fy)


def sway(h, m):
    """5.3.2(3)"""
    ah = 2 / math.sqrt(h)
    if ah < 2 / 3:
        ah = 2 / 3
    if ah > 1:
        ah = 1
    return ah * math.sqrt(0.5 * (1 + 1 / m)) / 200


# ------------------------------------------------------------ Table 5.2
def cls3(r, a, b, c):
    if r <= a:
        return 1
    if r <= b:
        return 2
    if r <= c:
        return 3
    return 4


def internal_bending(r, e):
    return cls3(r, 72 * e, 83 * e, 124 * e)


def internal_compression(r, e):
    return cls3(r, 33 * e, 38 * e, 42 * e)


def outstand_compression(r, e):
    return cls3(r, 9 * e, 10 * e, 14 * e)


def tube(r, e):
    return cls3(r, 50 * e ** 2, 70 * e ** 2, 90 * e ** 2)


def internal_comp_bend(r, e, a, p):
    if a == 0:
        return 1
    if a > 0.5:
        l1 = 396 * e / (13 * a - 1)
        l2 = 456 * e / (13 * a - 1)
    else:
        l1 = 36 * e / a
        l2 = 41.5 * e / a
    if r <= l1:
        return 1
    if r <= l2:
        return 2
    if p > -1:
        l3 = 42 * e / (0.67 + 0.33 * p)
    else:
        l3 = 62 * e * (1 - p) * math.sqrt(-p)
    if r <= l3:
        return 3
    return 4


def rolled_web_comp_bend(Ned, Med, fy, A, Wy, h, hw, tw):
    """Plastic neutral axis for fixed NEd; elastic stress ratio of the extreme fibres."""
    Nw = hw * tw * fy
    if -Ned >= Nw:
        a = 1
    elif Ned >= Nw:
        a = 0
    else:
        a = (1 - Ned / Nw) / 2
    sN = Ned / A
    sM = Med / Wy
    if sN > hw / h * abs(sM):
        p = 1
    else:
        p = (sN + sM) / (sN - sM)
    return (hw / tw, epsilon(fy), a, p)


def section_class(N, M, flange, web_c, web_b, web_cb):
    """Class of the section from the classes of its parts under the actual action effects."""
    noM = abs(M) < 1e-4
    if N >= 0:
        if noM:
            return 1
        if abs(N) < 1e-4 and abs(M) > 1e-4:
            return max(web_b, flange)
        if N > 0 and abs(M) > 1e-4:
            return 1
        return 1
    if abs(N) < 1e-4 and abs(M) > 1e-4:
        return max(web_b, flange)
    if noM:
        return max(flange, web_c)
    return max(flange, web_cb)


# ------------------------------------------------------------ 6.2.9, section check
def hollow_mn(n, M, A, b, t):
    a = (A - 2 * b * t) / A
    if a > 0.5:
        a = 0.5
    if n > 1:
        return 0
    return min(M * (1 - n) / (1 - a / 2), M)


def welded_mn(n, M, A, At, Ab):
    a = min((A - At - Ab) / A, 0.5)
    if n > 1:
        return 0
    return min(M * (1 - n) / (1 - a / 2), M)


def tube_mn(n, M):
    if n > 1:
        return 0
    return M * min(1, 1 - n ** 1.7)


def resistance_ratios(N, V, M, NRd, VRd, MRd, C, MN):
    """[axial, shear, bending, combined]"""
    un = abs(N) / NRd
    uv = abs(V) / VRd
    um = abs(M) / MRd
    if C < 3:
        umn = abs(M) / MN if MN > 0 else un + um
    else:
        umn = un + um
    return [un, uv, um, umn]


def modulus(C, Wpl, Wel):
    if C < 3:
        return Wpl
    return Wel


# ------------------------------------------------------------ 6.3 members
def ncr(E, I, L, k):
    return math.pi ** 2 * E * I / (k * L) ** 2


def chi(lam, alpha):
    phi = (1 + alpha * (lam - 0.2) + lam ** 2) / 2
    x = 1 / (phi + math.sqrt(phi ** 2 - lam ** 2))
    return min(x, 1)


def slenderness(A, fy, Ncr):
    return math.sqrt(A * fy / Ncr)


def nb_rd(A, fy, E, I, L, k, alpha):
    return chi(slenderness(A, fy, ncr(E, I, L, k)), alpha) * A * fy


def nb_simple(A, fy, x, g1):
    return x * A * fy / g1


def ncr_t(E, G, It, Iw, Iy, Iz, A, L):
    return A / (Iy + Iz) * (G * It + math.pi ** 2 * E * Iw / L ** 2)


def nbt_rd(A, fy, E, G, It, Iw, Iy, Iz, L, alpha):
    return chi(slenderness(A, fy, ncr_t(E, G, It, Iw, Iy, Iz, A, L)), alpha) * A * fy


def mcr_dual(E, G, Iz, Iw, It, L, C1, C2, kz, kw, zg):
    """Clark-Mitchell, doubly symmetric sections."""
    a = math.pi ** 2 * E * Iz / (kz * L) ** 2
    b = (kz / kw) ** 2 * Iw / Iz + (kz * L) ** 2 * G * It / (math.pi ** 2 * E * Iz) + (C2 * zg) ** 2
    return C1 * a * (math.sqrt(b) - C2 * zg)


def mcr_flange(E, Ifz, L, h):
    return math.pi ** 2 * E * Ifz / L ** 2 * h


def mb_rd(MRd, Mcr, alpha, MEd, general):
    """6.3.2.2 (general case) and 6.3.2.3 (rolled sections)."""
    lam = math.sqrt(MRd / Mcr)
    if general:
        l0, beta, top = 0.2, 1, 1
    else:
        l0, beta, top = 0.4, 0.75, min(1, 1 / lam ** 2)
    if lam <= l0 or MEd / Mcr <= l0 ** 2:
        return MRd
    phi = (1 + alpha * (lam - l0) + beta * lam ** 2) / 2
    return MRd * min(1 / (phi + math.sqrt(phi ** 2 - beta * lam ** 2)), top)


# Annex B -----------------------------------------------------
def kyy(n, lam, Cm, C):
    if C < 3:
        return Cm * (1 + min(lam - 0.2, 0.8) * n)
    return Cm * (1 + min(lam, 0.6) * n)


def kzz_hollow(n, lam, Cm, C):
    return kyy(n, lam, Cm, C)


def kzz_open(n, lam, Cm, C):
    if C < 3:
        return Cm * (1 + min(2 * lam - 0.6, 1.4) * n)
    return Cm * (1 + min(lam, 0.6) * n)


def kyz(kz, C):
    if C < 3:
        return 0.6 * kz
    return kz


def kzy_stiff(ky, C):
    if C < 3:
        return 0.6 * ky
    return 0.8 * ky


def kzy_ltb(n, lam, CmLT, C):
    if C < 3:
        full = 1 - 0.1 * min(lam, 1) / (CmLT - 0.25) * n
        if lam < 0.4:
            return min(0.6 + lam, full)
        return full
    return 1 - 0.05 * min(lam, 1) / (CmLT - 0.25) * n


def moment_ratio(m0, m1):
    if abs(m1) > 1e-6:
        r = m0 / m1
    else:
        r = 0
    if abs(r) > 1:
        r = 1 / r
    return r


def cm_linear(m0, m1):
    return max(0.6 + 0.4 * moment_ratio(m0, m1), 0.4)


def cm(m0, m1, ms, uniform):
    """Table B.3"""
    psi = moment_ratio(m0, m1)
    if abs(ms - (m0 + m1) / 2) < 1e-6:
        return max(0.6 + 0.4 * psi, 0.4)
    mh = m0 if abs(m0) > abs(m1) else m1
    if abs(mh) < 1e-6:
        return 0.95 if uniform else 0.9
    a = ms / mh
    if a == 0 or abs(a) > 1:
        ah = 1 / a if abs(a) > 1 else 0
        f = 1
        if ah < 0 and psi < 0:
            f = 1 + 2 * psi
        if uniform:
            return 0.95 + 0.05 * ah * f
        return 0.9 + 0.1 * ah * f
    if a >= 0:
        return max(0.2 + 0.8 * a, 0.4)
    if psi >= 0:
        return max((0.1 if uniform else 0) - 0.8 * a, 0.4)
    return max((0.1 * (1 - psi) if uniform else -0.2 * psi) - 0.8 * a, 0.4)


def s_required(E, G, Iw, It, Iz, L, h):
    """BB.2"""
    return 70 / h ** 2 * (math.pi ** 2 * E * Iw / L ** 2 + G * It + math.pi ** 2 * E * Iz / L ** 2 * h ** 2 / 4)


# ------------------------------------------------------------ EN 1993-1-5
def rho_internal(lp, psi):
    if lp <= 0.5 + math.sqrt(0.085 - 0.055 * psi):
        return 1
    return min(1, (lp - 0.055 * (3 + psi)) / lp ** 2)


def rho_outstand(lp):
    if lp <= 0.748:
        return 1
    return min(1, (lp - 0.188) / lp ** 2)


def lambda_p(b, t, e, k):
    return b / (28.4 * t * e * math.sqrt(k))


def k_internal(psi):
    """Table 4.1 for -3 < psi <= 1"""
    if psi == 1:
        return 4
    if psi > 0:
        return 8.2 / (1.05 + psi)
    if psi == 0:
        return 7.81
    if psi > -1:
        return 7.81 - 6.29 * psi + 9.78 * psi ** 2
    if psi == -1:
        return 23.9
    return 5.98 * (1 - psi) ** 2


def k_outstand_tip(psi):
    """Table 4.2, largest compression at the free edge."""
    if psi == 1:
        return 0.43
    if psi == 0:
        return 0.57
    if psi == -1:
        return 0.85
    return 0.57 - 0.21 * psi + 0.07 * psi ** 2


def k_outstand_support(psi):
    """Table 4.2, largest compression at the supported edge."""
    if psi == 1:
        return 0.43
    if psi > 0:
        return 0.578 / (psi + 0.34)
    if psi == 0:
        return 1.7
    if psi > -1:
        return 1.7 - 5 * psi + 17.1 * psi ** 2
    return 23.8


def beff_internal(b, psi, rho):
    if abs(psi - 1) < 1e-6:
        be = rho * b
        return be, [be / 2, be / 2]
    if psi > 0:
        be = rho * b
        e1 = 2 * be / (5 - psi)
        return be, [e1, be - e1]
    be = rho * b / (1 - psi)
    return be, [0.4 * be, 0.6 * be]


def beff_outstand(b, psi, rho):
    if psi < 0:
        return rho * b / (1 - psi)
    return rho * b


def chi_w(lam, eta, rigid):
    if lam < 0.83 / eta:
        return eta
    if lam < 1.08 or not rigid:
        return 0.83 / lam
    return 1.37 / (0.7 + lam)


def k_tau(hw, a):
    x = hw / a
    if a >= hw:
        return 5.34 + 4 * x ** 2
    return 4 + 5.34 * x ** 2


def sigma_e(t, b):
    return 190000 * (t / b) ** 2


def tau_cr(hw, a, t, b):
    return k_tau(hw, a) * sigma_e(t, b)


def lam_w(fy, tau):
    return 0.76 * math.sqrt(fy / tau)


def v_bw(chi_w, fyw, hw, t, g1):
    return chi_w * fyw * hw * t / math.sqrt(3) / g1


def v_bf(bf, tf, fyf, a, hw, t, fyw, rM, g1):
    c = a * (0.25 + 1.6 * bf * tf ** 2 * fyf / (t * hw ** 2 * fyw))
    return bf * tf ** 2 * fyf / (c * g1) * (1 - rM ** 2)


def patch(fyw, hw, tw, fyf, bf, tf, ss, a, kind, c, E, g1):
    """Clause 6: resistance to transverse forces; a = 0: no stiffeners (a = 1000 hw)."""
    if a == 0:
        a = 1000 * hw
    if ss > hw:
        ss = hw
    if kind == 'a':
        kf = 6 + 2 * (hw / a) ** 2
    elif kind == 'b':
        kf = 3.5 + 2 * (hw / a) ** 2
    else:
        kf = min(2 + 6 * (ss + c) / hw, 6)
    fcr = 0.9 * kf * E * tw ** 3 / hw
    m1 = fyf * bf / (fyw * tw)
    ly = _ly(kind, ss, tf, m1, 0, a, kf, E, tw, fyw, hw, c)
    lam = math.sqrt(ly * tw * fyw / fcr)
    if lam > 0.5:
        ly = _ly(kind, ss, tf, m1, 0.02 * (hw / tf) ** 2, a, kf, E, tw, fyw, hw, c)
        lam = math.sqrt(ly * tw * fyw / fcr)
    return fyw * tw / g1 * min(0.5 / lam, 1) * ly


def _ly(kind, ss, tf, m1, m2, a, kf, E, tw, fyw, hw, c):
    if kind == 'c':
        le = min(kf * E * tw ** 2 / (2 * fyw * hw), ss + c)
        return min(le + tf * math.sqrt(m1 / 2 + (le / tf) ** 2 + m2), le + tf * math.sqrt(m1 + m2))
    return min(ss + 2 * tf * (1 + math.sqrt(m1 + m2)), a)


def open_mn_z(n, M, A, b, tf):
    """6.2.9.1(5): I sections about z."""
    a = min((A - 2 * b * tf) / A, 0.5)
    if n > 1:
        return 0
    if n <= a:
        return M
    return M * (1 - ((n - a) / (1 - a)) ** 2)


def util(N, NRd):
    return abs(N) / NRd


def stress(N, M, A, W):
    """compression positive"""
    return M / W - N / A


def ratio(a, b):
    return a / b


def prod(a, b):
    return a * b


def welded_area(h, tw, bt, bb, tt, tb):
    return bt * tt + bb * tb + (h - tt - tb) * tw


def welded_vrd(h, tt, tb, tw, fy, g0):
    eta = 1.0
    if fy <= 460:
        eta = 1.2
    return eta * (h - tt - tb) * tw * fy / math.sqrt(3) / g0


def flange_moment(h, bt, bb, tt, tb, fy):
    return min(bt * tt, bb * tb) * (h - (tt + tb) / 2) * fy


# ------------------------------------------------------------ classes of section families
def rhs_wall(kind, B, R, T, e):
    r = (B - 2 * R) / T
    if kind == 'internal_bending':
        return internal_bending(r, e)
    return internal_compression(r, e)


def rhs_web_comp_bend(N, H, R, T, fy, e):
    """Two webs, plastic neutral axis for the given axial force (compression negative)."""
    c = H - 2 * R
    Nw = 2 * c * T * fy
    a = max(min(0.5 * (1 - N / Nw), 1), 0)
    return internal_comp_bend(c / T, e, a, -1)


def wi_flange(hw, tw, bt, bb, tt, tb, aw, e):
    return outstand_compression((0.5 * (bt - tw) - math.sqrt(2) * aw) / tt, e)


def wi_web_comp(hw, tw, bt, bb, tt, tb, aw, e):
    return internal_compression((hw - 2 * math.sqrt(2) * aw) / tw, e)


def wi_web_bend(zel, zpl, hw, tw, bt, bb, tt, tb, aw, e):
    s = math.sqrt(2) * aw
    c = hw - 2 * s
    if zpl <= tb + s:
        a = 1
    elif zpl >= tb + hw - s:
        a = 0
    else:
        a = (tb + hw - s - zpl) / c
    return internal_comp_bend(c / tw, e, a, (tb - zel) / (hw + tb - zel))


def wi_web_comp_bend(N, hw, tw, bt, bb, tt, tb, aw, e):
    c = hw - 2 * math.sqrt(2) * aw
    fy = 235 / e ** 2
    a = max(min(0.5 * (1 - N / (c * tw * fy)), 1), 0)
    return (c / tw, e, a, -1)


def wi_web_comp_bend_coded(N, g0, hw, tw, bt, bb, tt, tb, aw, e):
    A = hw * tw + bt * tt + bb * tb
    fy = 235 / e ** 2
    a = 0.5 * (A + N / (fy / g0)) / A
    return (hw / tw, e, a, -1)


# ------------------------------------------------------------ welded I, class 4
def eta_shear(fy):
    if fy <= 460:
        return 1.2
    return 1.0


def wi_eff_flange(hw, tw, bt, bb, tt, tb, aw, e, which):
    if which == 'top':
        b, th = bt, tt
    else:
        b, th = bb, tb
    c = (b - tw) / 2 - math.sqrt(2) * aw
    rho = rho_outstand(lambda_p(c, th, e, 0.43))
    return rho, rho, (1 - rho) * c


def wi_eff_web(hw, tw, bt, bb, tt, tb, aw, e, psi):
    c = hw - 2 * math.sqrt(2) * aw
    rho = rho_internal(lambda_p(c, tw, e, k_internal(psi)), psi)
    return beff_internal(c, psi, rho)[0]


def wi_aeff(hw, tw, bt, bb, tt, tb, aw, e):
    top = wi_eff_flange(hw, tw, bt, bb, tt, tb, aw, e, 'top')[2]
    bot = wi_eff_flange(hw, tw, bt, bb, tt, tb, aw, e, 'bottom')[2]
    c = hw - 2 * math.sqrt(2) * aw
    web = c - wi_eff_web(hw, tw, bt, bb, tt, tb, aw, e, 1)
    return hw * tw + bt * tt + bb * tb - 2 * top * tt - 2 * bot * tb - web * tw


def wi_shear_buckling(hw, tw, bt, bb, tt, tb, aw, e, a, rigid, N, M, g0, g1):
    fy = 235 / e ** 2
    eta = eta_shear(fy)
    if hw / tw < 72 * e / eta:
        return eta * hw * tw * fy / math.sqrt(3) / g0
    tau = tau_cr(hw, a, tw, hw)
    v = v_bw(chi_w(lam_w(fy, tau), eta, rigid), fy, hw, tw, g1)
    At, Ab = bt * tt, bb * tb
    Mf = min(At, Ab) * (hw + (tt + tb) / 2) * fy
    if abs(N) > 1e-6:
        r = abs(N) / ((At + Ab) * fy)
    else:
        r = 0
    rM = abs(M) / ((1 - r) * Mf)
    if rM < 1:
        if At <= Ab:
            bf, tf = bt, tt
        else:
            bf, tf = bb, tb
        bf = min(bf, 30 * e * tf + tw)
        return v + v_bf(bf, tf, fy, a, hw, tw, fy, rM, g1)
    raise NotImplementedError


# ------------------------------------------------------------ members
def curve(name):
    return {'a0': 0.13, 'a': 0.21, 'b': 0.34, 'c': 0.49, 'd': 0.76}[name]


def rolled_curves(h, b, tf, fy):
    """Table 6.2, rolled I and H sections (fy > 420: S460)."""
    high = fy > 420
    if h / b > 1.2:
        if tf <= 40:
            y, z = ('a0', 'a0') if high else ('a', 'b')
        else:
            y, z = ('a', 'a') if high else ('b', 'c')
    elif tf <= 100:
        y, z = ('a', 'a') if high else ('b', 'c')
    else:
        y, z = ('c', 'c') if high else ('d', 'd')
    return [curve(y), curve(z)]


def welded_curves(bt, bb, tt, tb):
    if max(tt, tb) <= 40:
        return [curve('b'), curve('c')]
    return [curve('c'), curve('d')]


def rolled_lt(h, b):
    """[general case (Table 6.4), rolled sections (Table 6.5)]"""
    if h / b <= 2:
        return [curve('a'), curve('b')]
    return [curve('b'), curve('c')]


def welded_lt(h, bt, bb):
    if h / min(bt, bb) <= 2:
        return [curve('c'), curve('c')]
    return [curve('d'), curve('d')]


def slend(A, fy, E, I, L, k):
    return slenderness(A, fy, ncr(E, I, L, k))


def mcr_mono(E, G, Iz, Iw, It, L, C1, C2, C3, kz, kw, za, zs, zj):
    g = C2 * (za - zs) - C3 * zj
    a = math.pi ** 2 * E * Iz / (kz * L) ** 2
    b = (kz / kw) ** 2 * Iw / Iz + (kz * L) ** 2 * G * It / (math.pi ** 2 * E * Iz) + g ** 2
    return C1 * a * (math.sqrt(b) - g)


def mcr_cantilever(E, G, Es, Gs, h, tf, Iz, Iw, It, L, point, loc, free):
    """Andrade, Camotim & Providencia e Costa (2007); k_z = 2, k_w = 1."""
    hs = h - tf
    K = math.pi / L * math.sqrt(Es * Iz * hs ** 2 / (4 * Gs * It))
    d = math.sqrt(1 + K ** 2)
    if free:
        if point:
            C1 = (2.437 + 0.613 * K - 0.105 * K ** 2) / d
            top, bot = 0.409 + 1.444 * K + 0.070 * K ** 2, 0.529 + 0.234 * K + 0.149 * K ** 2
        else:
            C1 = (3.840 + 1.496 * K - 0.247 * K ** 2) / d
            top, bot = 0.984 + 1.420 * K + 0.165 * K ** 2, 1.028 + 0.388 * K + 0.150 * K ** 2
    else:
        if point:
            C1 = (2.462 + 2.383 * K) / d
            top, bot = 0.380 + 2.092 * K - 0.318 * K ** 2, 0.512 + 0.370 * K - 0.033 * K ** 2
        else:
            C1 = (3.962 + 5.531 * K) / d
            top, bot = 1.130 + 1.539 * K - 0.176 * K ** 2, 1.049 + 0.234 * K - 0.020 * K ** 2
    if loc == 'top':
        C2, za = top, h / 2
    elif loc == 'bottom':
        C2, za = bot, -h / 2
    else:
        C2, za = 0, 0
    return mcr_dual(E, G, Iz, Iw, It, L, C1, C2, 2, 1, za)


def buckling_util(Ns, Nby, Nbz):
    """Utilisation of the largest compression force (compression negative)."""
    c = 0
    for N in Ns:
        c = min(c, N)
    return [-c / Nby, -c / Nbz]


def lt_util(Ms, MRd, Mcr, alpha):
    m = biggest(Ms)
    return m / mb_rd(MRd, Mcr, alpha, m, False)


def biggest(Ms):
    m = abs(Ms[0])
    for x in Ms[1:]:
        m = max(m, abs(x))
    return m


def moment_factor(sway, Ms, uniform):
    """Equivalent uniform moment factor of the member (moments at its ends and mid-span)."""
    if sway:
        return 0.9
    if len(Ms) == 2:
        return cm_linear(Ms[0], Ms[1])
    return cm(Ms[0], Ms[2], Ms[1], uniform)


def beam_column(Ns, Ms, Mz0, A, fy, E, Iy, Iz, L, ky, kz, ay, az, MRd, C, Cm, MbRd, CmLT):
    """(6.61), (6.62) with Annex B; major-axis bending. MbRd = 0: not susceptible to LTB."""
    M = biggest(Ms)
    if M < 1e-6:
        return [0, 0]
    c = 0
    for N in Ns:
        c = min(c, N)
    N = -c
    sy, sz = slend(A, fy, E, Iy, L, ky), slend(A, fy, E, Iz, L, kz)
    ny, nz = N / (chi(sy, ay) * A * fy), N / (chi(sz, az) * A * fy)
    k = kyy(ny, sy, Cm, C)
    MR = MRd
    if CmLT is not None:
        kk = kzy_ltb(nz, sz, CmLT, C)
        MR = MbRd
    elif Mz0:
        kk = 0
    else:
        kk = kzy_stiff(k, C)
    return [ny + k * M / MR, nz + kk * M / MR]
