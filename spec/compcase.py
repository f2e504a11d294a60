"""Composite members and their materials (scenarios of the C24 rules)."""
from metku.eurocodes.en1992.constants import Concrete
from metku.eurocodes.en1992.en1992_1_1 import Rebar, fcd
from metku.eurocodes.en1994.en1994_1_1 import S3L_Studs, ShearStud
from metku.sections.composite.composite_beam import CompositeIBeam, CompositeSlab, ConcreteSlab
from metku.sections.composite.composite_column import ConcreteFilledTube
from metku.sections.steel.ISection import ISection
from metku.sections.steel.RHS import RHS


class Creeping(Concrete):
    """Concrete with given creep coefficients for loading after four weeks and after one day."""

    def given(self, phi, fresh):
        self.phi = phi
        self.fresh = fresh
        return self

    def creep_coefficient(self, h0, t, t0=None):
        if t0 == 28:
            return self.phi
        return self.fresh


def concrete_class(name, a, g):
    c = Concrete(name)
    return c.fck, c.fck_cube, c.fcm, c.Ecm, c.fcd(), c.fcd(a_cc=1.0), c.fcd(a, g), fcd(c.fck), fcd(c.fck, a, g), c.nu_cracked()


def creep(name, h0, t, t0, RH):
    c = Concrete(name)
    if RH is not None:
        c.RH = RH
    return c.creep_coefficient(h0, t, t0)


def rebar(d, d2):
    r = Rebar(d)
    first = r.r, r.A, r.I, r.fy, r.fyd, r.E, r.weight
    r.d = d2
    return first, r.A, r.I


def stud(kind, length, fu, fck, Ecm):
    return ShearStud(S3L_Studs[kind], length, 350, fu).PRd(fck, Ecm)


def beam(dims, A, I, fy, fck, Ecm, hc, ha, L, b0, RH, name='C30/37'):
    s = ISection(*dims, fy)
    s.A = A
    s.I[0] = I
    c = Creeping('C30/37').given(*name) if isinstance(name, tuple) else Concrete(name)
    slab = ConcreteSlab(hc, c) if ha is None else CompositeSlab(hc + ha, c, ha)
    b = CompositeIBeam(L, s, slab) if RH is None else CompositeIBeam(L, s, slab, RH=RH)
    b.b0 = b0
    c.fck = fck
    c.Ecm = Ecm
    return b


def elastic(case):
    b = beam(*case)
    return (b.slab.h, b.slab.h0, b.beff, b.yc, b.ya, b.Ac, b.Ic, b.EAa, b.EIa, b.EAc, b.EIc, b.n0, b.centroid(), b.EAcom(), b.ya_com(), b.yc_com(),
            b.EIcom(), b.distance_centroids(), b.composite_coefficient())


def lasting(case, t0):
    b = beam(*case)
    return b.creep_coefficient(), b.creep_coefficient(t0)


def reduced(case, t0):
    """Moduli of concrete under permanent load and shrinkage; the time of loading changed afterwards."""
    b = beam(*case)
    out = b.Ecc, b.Ecs, b.nC, b.nS, b.EAcc, b.EIcc
    b.t0 = t0
    return out, b.Ecc


def long_term(case):
    b = beam(*case)
    return b.centroid('creep'), b.EAcom('creep'), b.EIcom('creep'), b.EIcom()


def plastic(case):
    """Plastic resultants, neutral axis and moment resistance."""
    b = beam(*case)
    return b.Ra(), b.Rc(), b.Rf(), b.plastic_neutral_axis(), b.MplRd()


def tube(H, B, T, A, I, W, fy, fck, Ecm, d, u, v, L, name='C30/37'):
    s = RHS(H, B, T, fy)
    s.A = A
    s.I[0] = I
    s.Wpl[0] = W
    c = Creeping('C30/37').given(*name) if isinstance(name, tuple) else Concrete(name)
    p = ConcreteFilledTube(L, s, c, Rebar(d))
    p.u = u
    p.v = v
    c.fck = fck
    c.Ecm = Ecm
    return p


def filling(case):
    """Geometry and stiffness of the parts of a filled tube."""
    p = tube(*case)
    return (p.z_rebar, p.y_rebar, p.u, p.v, p.As, p.Is, p.Wps, p.EIs, p.Ac, p.Ic, p.Wpc, p.EAc, p.EIc, p.EAa, p.EIa, p.EAcom(), p.Wpa,
            p.reinforcement_ratio(), p.weight_per_length)


def corners(case, x, y):
    """Position of the bars given by their coordinates."""
    s = RHS(*case)
    p = ConcreteFilledTube(3000, s, Concrete('C30/37'), Rebar(16), [x, y])
    return p.y_rebar, p.z_rebar, p.u, p.v


def column(case, N, G, k, sign):
    p = tube(*case)
    p.ned = N
    p.nged = G
    p.lcr = [k, 1.0]
    return p.Eceff, p.EIeff(), p.EIeffII(), p.NaRd(), p.NplRd(), p.NplRk(), p.NpmRd(), p.Ncr(), p.Ncreff(), p.steel_contribution_ratio()


def buckling(case, N, G):
    p = tube(*case)
    p.ned = N
    p.nged = G
    return p.slenderness(), p.NbRd(), p.e0()


def bending(case):
    p = tube(*case)
    return p.Mpl_max_Rd(), p.MplRd(), p.alpha_m()


def moments(a, b, N):
    p = ConcreteFilledTube(3000, RHS(200, 200, 8), Concrete('C30/37'), Rebar(16))
    p.med = [a, b]
    p.ned = N
    return p.NEd, p.M1, p.M2
