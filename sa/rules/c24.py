"""C24: concrete, shear studs, composite beams and concrete filled tubes (EN 1992-1-1, EN 1994-1-1)."""
from fractions import Fraction

from .. import terms as t
from .c19 import Case as Base, positive

EXPLAIN = ('Scenarios that build composite beams (solid and composite slab), concrete filled rectangular tubes, shear studs, bars and '
           'concretes with symbolic dimensions and strengths, compared with a reference written from EN 1992-1-1 and EN 1994-1-1 and '
           'the theory of composite sections.')
RULE = 'composite member as in EN 1994-1-1'
CM = 'metku.eurocodes.en1992.constants'
RB = 'metku.eurocodes.en1992.en1992_1_1'
SS = 'metku.eurocodes.en1994.en1994_1_1'
CB = 'metku.sections.composite.composite_beam'
CC = 'metku.sections.composite.composite_column'
HINTS = {'L': (5000, 12000), 'hc': (60, 160), 'ha': (40, 80), 'h': (250, 500), 'b': (120, 250), 'tf': (8, 16), 'tw': (5, 10), 'r': (10, 20),
         'A': (4000, 12000), 'I': (10**7, 5 * 10**8), 'W': (10**5, 2 * 10**6), 'fck': (20, 50), 'Ecm': (28000, 37000), 'b0': (0, 200),
         'RH': (40, 90), 'H': (200, 400), 'B': (150, 300), 'T6': (4, 6), 'd': (10, 25), 'u': (20, 40), 'v': (20, 40), 'N': (10**5, 10**6),
         'G': (10**4, 10**5), 'phi': (1, 3), 'phi1': (2, 5), 'k': (0.5, 2), 'h0': (50, 600), 't0': (1, 90), 'tt': (100, 10**5), 'fu': (400, 500), 'len': (50, 150),
         'gc': (1, 1.5), 'ac': (0.8, 1), 'd2': (8, 32)}
CLASSES = ('C12/15', 'C16/20', 'C20/25', 'C25/30', 'C30/37', 'C35/45', 'C40/50', 'C45/55', 'C50/60')


class Case(Base):
    def __init__(self, r, hints=None):
        from ..kit import Kit
        self.k = Kit(r, 'composite', hints=hints)

    def eq(self, key, where, name, code, ctx=None, assume=False):
        k = self.k
        k.eq(key, where, RULE, lambda st: (st, k.sp(st, 'compcase:' + name, *[self.val(st, v) for v in code])),
             lambda st: k.sp(st, name, *[self.val(st, v) for v in code]), ctx, assume=assume)


def run(r):
    materials(r)
    beams(r)
    tubes(r)


def materials(r):
    c = Case(r, HINTS)
    ac, gc, h0, tt, t0, RH, d, d2, fu, fck, Ecm, ln = c.ss('ac gc h0 tt t0 RH d d2 fu fck Ecm len', '+')
    late = positive(t.sub(tt, t0), t.sub(t.num(100), RH))
    for name in CLASSES:
        c.eq('concrete.' + name, (CM, 'Concrete.__init__'), 'concrete_class', [name, ac, gc])
        c.eq('creep.' + name, (CM, 'Concrete.creep_coefficient'), 'creep', [name, h0, tt, t0, RH], late)
    c.eq('creep.default', (CM, 'Concrete.creep_coefficient'), 'creep', ['C25/30', h0, tt, t0, None], late)
    c.eq('rebar', (RB, 'Rebar.A'), 'rebar', [d, d2])
    for kind in (19, 22, 25):
        c.eq('stud.%d' % kind, (SS, 'ShearStud.PRd'), 'stud', [kind, ln, fu, fck, Ecm])


def beams(r):
    c = Case(r, HINTS)
    h, b, tf, tw, rr, A, I, fck, Ecm, hc, ha, L, b0, RH, t0 = c.ss('h b tf tw r A I fck Ecm hc ha L b0 RH t0', '+')
    dims = [h, b, tf, tw, rr]
    phi, phi1 = c.ss('phi phi1', '+')
    dry = positive(t.sub(t.num(100), RH))
    for nm, deck in (('solid', None), ('deck', ha)):
        case = (dims, A, I, 355, fck, Ecm, hc, deck, L, b0, RH)
        c.eq('beam.elastic.' + nm, (CB, 'CompositeIBeam.EIcom'), 'elastic', [case])
        c.eq('beam.lasting.' + nm, (CB, 'CompositeIBeam.EIcom'), 'long_term', [case + ((phi, phi1),)])
        for cl in ('C25/30', 'C35/45'):
            c.eq('beam.creep.%s.%s' % (nm, cl), (CB, 'CompositeIBeam.creep_coefficient'), 'lasting', [case + (cl,), t0], dry)
            for hn in (80, 200):
                one = (dims, A, I, 355, fck, Ecm, hn, deck, L, b0, 70, cl)
                c.eq('beam.moduli.%s.%s.%d' % (nm, cl, hn), (CB, 'CompositeIBeam.Ecc'), 'reduced', [one, 7])
        for fy in (235, 355, 420):
            c.eq('beam.plastic.%s.%d' % (nm, fy), (CB, 'CompositeIBeam.MplRd'), 'plastic', [(dims, A, I, fy, fck, Ecm, hc, deck, L, b0, RH)])
    c.eq('beam.humidity', (CB, 'CompositeIBeam.__init__'), 'lasting', [(dims, A, I, 355, fck, Ecm, hc, ha, L, b0, None), t0], dry)


def tubes(r):
    c = Case(r, HINTS)
    H, B, A, I, W, fck, Ecm, d, u, v, L, N, G, k = c.ss('H B A I W fck Ecm d u v L N G k', '+')
    x, y, a, b, n = c.k.s('x', '?'), c.k.s('y', '?'), c.k.s('m1', '?'), c.k.s('m2', '?'), c.k.s('n', '?')
    phi = c.k.s('phi', '+')
    wide = {T: positive(t.sub(H, t.num(6 * T)), t.sub(B, t.num(6 * T))) for T in (5, 8, 12)}
    for T in (5, 8, 12):
        for fy in (355, 420):
            case = (H, B, T, A, I, W, fy, fck, Ecm, d, u, v, L)
            nm = '%d.%d' % (T, fy)
            if fy == 355:
                c.eq('tube.parts.%d' % T, (CC, 'ConcreteFilledTube.Ic'), 'filling', [case], wide[T])
                c.eq('tube.column.%d' % T, (CC, 'ConcreteFilledTube.EIeff'), 'column', [case, N, G, k, 1], wide[T])
            c.eq('tube.bending.' + nm, (CC, 'ConcreteFilledTube.MplRd'), 'bending', [case], wide[T])
        # bars of less and of more than three per cent of the concrete
        for dn in [16, 32] + [Fraction(x, 100) for x in {5: [2252, 2267], 8: [2191, 2206], 12: [2104, 2118]}[T]]:
            c.eq('tube.buckling.%d.%s' % (T, float(dn)), (CC, 'ConcreteFilledTube.NbRd'), 'buckling',
                 [(300, 200, T, 8000, 9 * 10**7, 700000, 355, 30, 33000, dn, 30, 30, L, (phi, phi)), N, G])
        c.eq('tube.bars.%d' % T, (CC, 'ConcreteFilledTube.u'), 'corners', [(H, B, T), x, y], wide[T])
    c.eq('tube.moments', (CC, 'ConcreteFilledTube.M2'), 'moments', [a, b, n])
