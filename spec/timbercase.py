"""Timber sections and members driven through the library's interface (scenarios of the C21 rules)."""
from metku.materials.timber_data import Timber, T
from metku.eurocodes.en1995 import en1995_1_1, en1995_1_2
from metku.eurocodes.en1995.fire_protection import (FireProtection, WoodenFireProtection, GypsumPlasterboardA, GypsumPlasterboardF,
                                                    GypsumPlasterboardH, GypsumPlasterboardAA, GypsumPlasterboardFF,
                                                    GypsumPlasterboardHH, GypsumPlasterboardAF)
from metku.sections.timber.timber_section import TimberSection, PulpettiPalkki, HarjaPalkki, KaarevaPalkki, KaarevaHarjaPalkki
from metku.structures.timber.timber_member import TimberMember

NAMES = ['fmk', 'ft0k', 'ft90k', 'fc0k', 'fc90k', 'fvk', 'E0mean', 'E005', 'E90mean', 'Gmean', 'G005', 'rhok', 'rhomean']
LVL_NAMES = ['fmk', 's', 'fm0flatk', 'ft0k', 'ft90edgek', 'fc0k', 'fc90edgek', 'fc90flatk', 'fvk', 'fr0k', 'E0mean', 'E005',
             'Gmean', 'G005', 'rhok', 'rhomean']


class Node:
    def __init__(self):
        self.parents = []


class Owner:
    """Frame member that holds the timber member."""

    def __init__(self, length):
        self.length = length
        self.n1 = Node()
        self.n2 = Node()


def grade(g, lvl):
    m = Timber(getattr(T, g))
    return [getattr(m, a) for a in (LVL_NAMES if lvl else NAMES)] + [m.young, m.density, m.shear_modulus]


def kmod(kind, sc, ldc):
    return en1995_1_1.kmod(kind, sc, ldc)


def kdef(kind, sc):
    return en1995_1_1.kdef(kind, sc)


def design_value(f, k, g):
    return en1995_1_1.k_to_d(f, k, g)


def charring(g, h):
    m = Timber(getattr(T, g))
    return en1995_1_2.charring_speed(m.rhok, m.type, m.hardness, h)


def char_unprotected(t, bn):
    return en1995_1_2.d_char_n(None, t, bn)


def char_protected(t, bn, tch, tf, ta):
    return en1995_1_2.d_char_n(FireProtection(tch, 13, tf, ta), t, bn)


def protection(p):
    if p is None:
        return None
    return FireProtection(p[0], 13, p[1])


def measures(s):
    i, w = s.I, s.Wel
    return [s.H, s.B, s.A, i[0], i[1], w[0], w[1]]


def fire_section(g, B, H, t, sides, left, right, bottom, top):
    s = TimberSection(B, H, getattr(T, g), fire_protection_left=protection(left), fire_protection_right=protection(right),
                      fire_protection_bottom=protection(bottom), fire_protection_top=protection(top), sides_on_fire=sides)
    s.R = t
    return measures(s)


def generic_fire(g, B, H, t, sides, protected, prot):
    s = TimberSection(B, H, getattr(T, g), fire_protection_generic=protection(prot), fire_protection_sides=protected, sides_on_fire=sides)
    s.R = t
    return measures(s)


def resized(g, B, H, B2, H2, t):
    """measures before and after a change of size, and after the fire is over"""
    s = TimberSection(B, H, getattr(T, g))
    s.R = t
    s.B = B2
    s.H = H2
    r = measures(s)
    s.R = 0
    return r + measures(s) + [s.get_H(0.3), s.get_A(0.7), s.get_I(0.2)[0], s.get_Wel(0.9)[1]]


def wood_protection(g, hp):
    p = WoodenFireProtection(getattr(T, g), hp)
    return [p.t_ch, p.t_f, p.h_p]


BOARDS = {'A': GypsumPlasterboardA, 'F': GypsumPlasterboardF, 'H': GypsumPlasterboardH, 'AA': GypsumPlasterboardAA,
          'FF': GypsumPlasterboardFF, 'HH': GypsumPlasterboardHH, 'AF': GypsumPlasterboardAF}


def board(kind, gap):
    p = BOARDS[kind](gap)
    return [p.t_ch, p.h_p]


def board_times(kind, gap, g):
    p = BOARDS[kind](gap)
    TimberSection(100, 200, getattr(T, g), fire_protection_bottom=p)
    return [p.t_ch, p.t_f]


# ------------------------------------------------------------ tapered beams
def at(s, x):
    i, w = s.get_I(x), s.get_Wel(x)
    return [s.get_H(x), s.get_A(x), i[0], i[1], w[0], w[1]]


def single_at(B, h0, hap, x):
    return at(PulpettiPalkki(B, h0, hap), x)


def double_at(B, h0, hap, xap, x):
    return at(HarjaPalkki(B, h0, hap, xap), x)


def parts(s):
    r = []
    for e in s.small_elements:
        r += [e.A, e.I[0], e.I[1]]
    return r


def single_elements(B, h0, hap, n):
    s = PulpettiPalkki(B, h0, hap)
    s.num_elements = n
    s.create_elements()
    return parts(s)


def double_elements(B, h0, hap, xap, n):
    s = HarjaPalkki(B, h0, hap, xap)
    s.num_elements = n
    s.create_elements()
    return parts(s)


def single_changed(B, h0, hap, n, a, b):
    s = PulpettiPalkki(B, a, b)
    s.num_elements = n
    s.create_elements()
    s.H0 = h0
    s.Hap = hap
    return parts(s)


def double_changed(B, h0, hap, xap, n, a, b, c):
    s = HarjaPalkki(B, a, b, c)
    s.num_elements = n
    s.create_elements()
    s.Hap = hap
    s.H0 = h0
    s.Xap = xap
    return parts(s)


def curved(B, h0, adeg, bdeg, r, L, arched):
    s = KaarevaPalkki(B, h0, adeg, bdeg, r) if arched else KaarevaHarjaPalkki(B, h0, adeg, bdeg, r)
    s.parent = Owner(L)
    s.update_circles()
    return s


def curved_height(B, h0, adeg, bdeg, r, L, xs, arched):
    s = curved(B, h0, adeg, bdeg, r, L, arched)
    return [s.get_H(x) for x in xs] + [s.Hap]


# ------------------------------------------------------------ members
def member(s, L, sc, ldc, sy=(), sz=(), **kw):
    m = TimberMember(s, s.material, L, ldc, sc, lateral_support_y=list(sy), lateral_support_z=list(sz), **kw)
    s.timber_member = m
    m.parent = Owner(L)
    m.calc_l_c()
    return m


def loads(m, loc, N=None, My=None, Mz=None, Vy=None, Vz=None, Tx=None):
    for i in range(len(loc)):
        m.add_section(loc=loc[i], ned=N[i] if N else 0, myed=My[i] if My else 0, mzed=Mz[i] if Mz else 0,
                      vyed=Vy[i] if Vy else 0, vzed=Vz[i] if Vz else 0, ted=Tx[i] if Tx else 0)


def bending_strength(g, B, H, sc, ldc):
    m = member(TimberSection(B, H, getattr(T, g)), 6000, sc, ldc)
    loads(m, [0], My=[1])
    return m.fmd


def lvl_tension(g, B, H, L, sc, ldc):
    m = member(TimberSection(B, H, getattr(T, g)), L, sc, ldc)
    loads(m, [0], N=[1])
    return m.ft0d


def strengths(g, sc, ldc):
    m = member(TimberSection(200, 600, getattr(T, g)), 6000, sc, ldc)
    return [m.fc0d, m.fc90d, m.fvd, m.ft90d]


def lvl_strengths(g, sc, ldc, direction):
    m = member(TimberSection(200, 600, getattr(T, g), lvldir=direction), 6000, sc, ldc)
    return [m.fc0d, m.fc90d, m.fvd, m.ft90edged, m.fr0d]


def creep(g, sc):
    return member(TimberSection(200, 600, getattr(T, g)), 6000, sc, 'mt').get_kdef()


def loaded(g, B, H, sc, ldc, N, My, Mz):
    m = member(TimberSection(B, H, getattr(T, g)), 6000, sc, ldc)
    loads(m, [0, 0.5, 1], N=[1, N, -1], My=[1, My, -1], Mz=[1, Mz, -1])
    return m


def axial(g, B, H, sc, ldc, N):
    return loaded(g, B, H, sc, ldc, N, 0, 0).check_normal_force(1)


def bending(g, B, H, sc, ldc, My, Mz):
    return loaded(g, B, H, sc, ldc, 0, My, Mz).check_bending_moment(1)


def tension_bending(g, B, H, sc, ldc, N, My, Mz):
    return loaded(g, B, H, sc, ldc, N, My, Mz).check_bending_tension(1)


def compression_bending(g, B, H, sc, ldc, N, My, Mz):
    return loaded(g, B, H, sc, ldc, N, My, Mz).check_bending_compression(1)


def shear(g, B, H, sc, ldc, Vy, Vz, varnished):
    m = member(TimberSection(B, H, getattr(T, g)), 6000, sc, ldc, varnished=varnished)
    loads(m, [0, 0.5, 1], Vy=[1, Vy, 1], Vz=[1, Vz, 1])
    return m.check_shear_force(1, reduce=False)


def torsion(g, b, ratio, sc, ldc, Tx):
    m = member(TimberSection(b, ratio * b, getattr(T, g)), 6000, sc, ldc)
    loads(m, [0, 0.5, 1], Tx=[1, Tx, 1])
    return [m.check_torsion(1), m.I_tor(0.5)]


def lying(g, b, ratio, Tx):
    m = member(TimberSection(ratio * b, b, getattr(T, g)), 6000, 1, 'mt')
    loads(m, [0, 0.5, 1], Tx=[1, Tx, 1])
    return [m.tau_tord(1), m.I_tor(0.5)]


def torsion_bounds(b, h):
    """constants alpha and beta of a rectangle"""
    m = member(TimberSection(b, h, T.C24), 6000, 1, 'mt')
    loads(m, [0], Tx=[1])
    return [m.I_tor(0) / (h * b ** 3), 1 / (m.tau_tord(0) * h * b ** 2)]


def segments(L, sy, sz):
    m = member(TimberSection(200, 600, T.C24), L, 1, 'mt', sy, sz)
    return list(m.L_c[0]) + list(m.L_c[1])


def reduction(g, B, H, L, by, bz):
    m = member(TimberSection(B, H, getattr(T, g)), L, 1, 'mt', beta=[by, bz])
    loads(m, [0, 1], N=[-1, -1])
    k = m.k_c()
    return [k[0][0], k[1][0]]


def reduction_one(g, B, H, L, beta):
    m = member(TimberSection(B, H, getattr(T, g)), L, 1, 'mt', beta=beta)
    loads(m, [0, 1], N=[-1, -1])
    k = m.k_c()
    return [k[0][0], k[1][0]]


def buckling(g, B, H, L, sc, ldc, beta, sy, sz, loc, N, My, Mz):
    m = member(TimberSection(B, H, getattr(T, g)), L, sc, ldc, sy, sz, beta=beta)
    loads(m, loc, N=N, My=My, Mz=Mz)
    return m.check_buckling()


def lateral(g, B, ratio, L, edge, sz, j):
    m = member(TimberSection(B, ratio * B, getattr(T, g)), L, 1, 'mt', [], sz, edge_load=edge)
    return [m.l_ef(j, 1, 0.5), m.sigma_mcrit(j, 1, 0.5), m.lamda_relm(j, 1, 0.5), m.k_crit(j, 1, 0.5)]


def ltb(g, B, ratio, L, sc, ldc, edge, beta, sz, loc, N, My):
    m = member(TimberSection(B, ratio * B, getattr(T, g)), L, sc, ldc, [], sz, edge_load=edge, beta=beta)
    loads(m, loc, N=N, My=My)
    return m.check_LT_buckling()


def bracing(g, B, ratio, L, edge, sz, loc, My, n):
    m = member(TimberSection(B, ratio * B, getattr(T, g)), L, 1, 'mt', [], sz, edge_load=edge)
    loads(m, loc, My=My)
    return list(m.bracing(n) if n is not None else m.bracing())


def apex(s, L):
    m = member(s, L, 1, 'mt')
    return [m.k_l(), m.k_p(), m.k_dis()]


def apex_double(B, h0, hap, L):
    return apex(HarjaPalkki(B, h0, hap), L)


def apex_curved(B, h0, adeg, bdeg, r, L, arched):
    s = curved(B, h0, adeg, bdeg, r, L, arched)
    return apex(s, L) + [s.hap]


def bend_factor(r, t):
    s = KaarevaPalkki(100, 600, 20, 15, r, t=t)
    s.parent = Owner(20000)
    return member(s, 20000, 1, 'mt').k_r()


def double_apex_checks(g, B, h0, hap, L, sc, ldc, My, kvol):
    """My: moments at the ends of four elements (no end at the apex when there are three)"""
    m = member(HarjaPalkki(B, h0, hap, material=getattr(T, g)), L, sc, ldc, k_vol=kvol)
    loads(m, [i / (len(My) - 1) for i in range(len(My))], My=My)
    return [m.check_apex_bending_stress(), m.check_apex_perpendicular_tension()]


def reduced_shear(g, B, H, L, sc, ldc, loc, V):
    m = member(TimberSection(B, H, getattr(T, g)), L, sc, ldc)
    loads(m, loc, Vz=V)
    return [m.check_shear_force(n) for n in range(len(loc))]


def envelope(g, B, H, L, sc, ldc, loc, N, My, Vz):
    """utilisations of all sections, kept per section and as largest values"""
    m = member(TimberSection(B, H, getattr(T, g)), L, sc, ldc)
    loads(m, loc, N=N, My=My, Vz=Vz)
    r = m.check_sections(reduce_uv=False)
    k = [[u['un'], u['uv'], u['um'], u['ubt'], u['ubc']] for u in m.utilization]
    m.clear_sections()
    return [r[0], r[1], r[2]] + [k[i][j] for j in range(3) for i in range(len(loc))] + [m.nsect()]


def design(g, B, H, L, sc, ldc, beta, sy, sz, loc, N, My, Mz):
    """largest utilisation of a column, and of its sections and buckling one by one"""
    m = member(TimberSection(B, H, getattr(T, g)), L, sc, ldc, sy, sz, beta=beta, mtype='column')
    loads(m, loc, N=N, My=My, Mz=Mz)
    return m.design()


def fire_member(g, B, H, L, t, N):
    """axial utilisation in fire, and again without"""
    m = member(TimberSection(B, H, getattr(T, g)), L, 1, 'inst')
    loads(m, [0], N=[N])
    m.R = t
    a = m.check_normal_force(0)
    m.R = 0
    return [a, m.check_normal_force(0)]
