"""Quotes asked from the fabrication cost model (scenarios of the C22 rules)."""
from metku.cost import workshop as ws
from metku.cost import cost_data
import numpy as np
from metku.materials.steel_data import Steel
from metku.raami.frame_node import FrameNode
from metku.raami.raami_plane_truss import BottomChord, PlaneTruss, TopChord, TrussBrace, TubularJoint
from metku.eurocodes.en1993.en1993_1_8.en1993_1_8 import Bolt
from metku.structures.steel.end_plate_joint import EndPlateJoint
from metku.structures.steel.fin_plate_joint import FinPlateJoint
from metku.structures.steel.plates import RectPlate, RectPlateWithHoles


def annuity(p, i, n):
    return ws.annual_cost(p, i, n)


def centre(length, width, workers, invest, resale, maint, years, tp, tn, cons, energy, fixed, utility, labour):
    c = ws.CostCentre(length, width, workers, invest, resale, maint, years)
    c.costs['labour'] = labour
    c.times['productive'] = tp
    c.times['non-productive'] = tn
    c.productive_costs['consumables'] = cons
    c.productive_costs['energy'] = energy
    c.consumables_cost = fixed
    c.utility = utility
    return c.cost()


def blasting(length, width, workers, speed, invest, resale, maint, piece):
    return ws.BlastingCost(length, width, workers, speed, invest, resale, maint).cost(piece)


def cutting(length, width, workers, invest, resale, maint, t, cut):
    return ws.CuttingCost(length, width, workers, invest, resale, maint).cost(t, cut)


def painting(length, width, workers, paint, area):
    return ws.PaintingCost(length, width, workers, paint).cost(area)


def welding(length, width, workers, invest, resale, maint, years, grade, size, weld, kind):
    c = ws.AssemblingCostWeld(length, width, workers, invest, resale, maint, years, steel_grade=grade)
    return c.cost(size, weld, kind)


def sawing(length, width, workers, invest, resale, maint, years, grade, member, bevels, ends):
    c = ws.SawingCost(length, width, workers, invest, resale, maint, years)
    return saw_ends(c, member, bevels, grade, ends)


def saw_ends(c, member, bevels, grade, ends):
    return c.cost(member, bevels, grade, [e[0] for e in ends], [e[1] for e in ends], [e[2] for e in ends], [e[3] for e in ends])


def film(paint):
    return ws.paints[paint]['TPP'] * 900000, ws.paints[paint]['CP']


def quotes(shop, t, cut, piece, area, size, weld, member, ends):
    c = shop.cost_centres
    return [c['cutting'].cost(t, cut), c['blasting'].cost(piece), c['painting'].cost(area), c['assembly_welding'].cost(size, weld),
            saw_ends(c['sawing'], member, 0, 'S355', ends)]


def after(other, mine):
    """The quotes of a workshop that has priced other work before and is asked twice."""
    shop = ws.Workshop()
    c = shop.cost_centres
    c['assembly_welding'].cost(other[4], other[5], 'butt')
    quotes(shop, *other)
    saw_ends(c['sawing'], other[6], 2, 'S700', other[7] + other[7])
    first = quotes(shop, *mine)
    return first + quotes(shop, *mine)


def two_shops(other, mine):
    """The quotes of one workshop do not depend on another one."""
    a = ws.Workshop()
    b = ws.Workshop()
    quotes(b, *other)
    b.cost_centres['painting'].paint = 'acryl'
    b.cost_centres['cutting'].utility = 0.5
    return quotes(a, *mine)


def custom(length, t, cut):
    """A workshop with its own cost centres."""
    shop = ws.Workshop({'plates': 900}, {'cutting': ws.CuttingCost(length)})
    return [shop.cost_centres['cutting'].cost(t, cut), len(shop.cost_centres), shop.steel_price['plates']]


def plate(b, h, t, grade, price, a, holes):
    p = RectPlate(b, h, t, grade)
    p.weld_size = a
    p.holes = holes
    return p.cost(ws.Workshop(), price)


def plate_again(b, h, t, grade, price, a, holes, a0, holes0, b0, t0):
    """A plate priced before with other dimensions, welds and holes."""
    shop = ws.Workshop()
    p = RectPlate(b0, h, t0, grade)
    p.weld_size = a0
    p.holes = holes0
    p.cost(shop, price)
    p.b = b
    p.t = t
    p.weld_size = a
    p.holes = holes
    p.cost(shop, price)
    return p.cost(shop, price)


def bolted_plate(b, h, t, grade, price, d0, n1, n2):
    return RectPlateWithHoles(b, h, t, d0, [30, 40], 50, 60, n1, n2, grade).cost(ws.Workshop(), price)


def bolted_again(b, h, t, grade, price, d0, n1, n2, m1, m2):
    shop = ws.Workshop()
    p = RectPlateWithHoles(b, h, t, d0, [30, 40], 50, 60, m1, m2, grade)
    p.cost(shop, price)
    p.n1 = n1
    p.n2 = n2
    return p.cost(shop, price)


def two_plates(b, h, t, grade, price, d0, n, b2, t2):
    """Two plates of one workshop: the first one priced again after the second."""
    shop = ws.Workshop()
    p = RectPlateWithHoles(b, h, t, d0, [30, 40], 50, 60, n, 1, grade)
    q = RectPlate(b2, h, t2, grade)
    q.weld_size = 5
    p.cost(shop, price)
    q.cost(shop, price)
    return p.cost(shop, price)


class Owner:
    def __init__(self):
        self.workshop = ws.Workshop()


class Thing:
    pass


class Profile:
    """Hollow section with given dimensions."""

    def __init__(self, H, B, T, A, Au, unit):
        self.H = H
        self.B = B
        self.T = T
        self.A = A
        self.Au = Au
        self.unit = unit
        self.material = Steel('S355')

    @property
    def E(self):
        return self.material.E

    @property
    def fy(self):
        return self.material.fy

    def cost(self):
        return self.A * 7.85e-6 * self.unit


def truss_member(kind, length, H, B, T, A, Au, unit):
    s = Profile(H, B, T, A, Au, unit)
    nodes = [FrameNode([0, 0]), FrameNode([length, 0])]
    if kind == 'brace':
        m = TrussBrace(nodes, s)
    elif kind == 'top':
        m = TopChord(nodes, s)
    else:
        m = BottomChord(nodes, s)
    m.frame = Owner()
    return m


def member(kind, length, H, B, T, A, Au, unit):
    m = truss_member(kind, length, H, B, T, A, Au, unit)
    c = m.cost()
    return [c['material'], c['blasting'], c['painting']] + ([c['sawing']] if kind == 'brace' else []) + [len(c)]


def member_again(kind, length, H, B, T, A, Au, unit, A2, Au2):
    """A member priced again after a change of its profile; it shares a workshop with other members."""
    m = truss_member(kind, length, H, B, T, A2, Au2, unit)
    o = truss_member('brace', 4321, 80, 80, 4, 1200, 300, 2)
    o.frame = m.frame
    m.cost()
    m.cross_section.A = A
    m.cross_section.Au = Au
    o.cost()
    c = m.cost()
    return [c['material'], c['blasting'], c['painting']] + ([c['sawing']] if kind == 'brace' else []) + [len(c)]


class Part:
    def __init__(self, values):
        self.values = values
        self.costs = {}

    def cost(self, verb=False):
        self.costs = dict(zip(['material', 'blasting', 'painting', 'sawing'], self.values))
        return self.costs


class Weld:
    def __init__(self, value):
        self.value = value
        self.costs = {}

    def cost(self):
        self.costs = {'welding': self.value}
        return self.value


def truss(braces, top, bottom, joints):
    t = PlaneTruss()
    t.braces = dict(enumerate([Part(v) for v in braces]))
    t.top_chord = [Part(v) for v in top]
    t.bottom_chord = [Part(v) for v in bottom]
    t.joints = dict(enumerate([Weld(v) for v in joints]))
    t.cost()
    c = t.cost()
    return [c] + [t.costs[k] for k in ('material', 'blasting', 'painting', 'sawing', 'welding')]


def joint(chord, braces):
    ch = Thing()
    ch.dir_vector = np.array(chord)
    bs = []
    owner = Owner()
    for u, H, B, T, R in braces:
        b = Thing()
        b.dir_vector = np.array(u)
        b.frame = owner
        b.material = Steel('S355')
        b.cross_section = Thing()
        b.cross_section.H = H
        b.cross_section.B = B
        b.cross_section.T = T
        b.cross_section.R = R
        bs.append(b)
    j = TubularJoint(FrameNode([0, 0]), [ch], bs)
    c = j.cost()
    return [c, j.costs['welding'], j.cost()]


def beam_profile(b, tf, tw, r, hw, h):
    p = Thing()
    p.b = b
    p.tf = tf
    p.tw = tw
    p.r = r
    p.hw = hw
    p.h = h
    p.Med = [0, 0]
    p.Ved = [0, 0]
    return p


def end_plate(b, tf, tw, r, hw, h, bp, tp, top, bottom, rows, size, length, wf, ww, stiffeners, before, fresh):
    col = beam_profile(200, 15, 9, 18, 134, 200)
    beam = beam_profile(b, tf, tw, r, hw, h)
    pos = [{'flange': 'Inner bolt row', 'plate': 'Other inner bolt row'} for _ in rows]
    shop = ws.Workshop({'plates': 1000})
    j = EndPlateJoint(col, beam, tp, bp, 'S355', top, bottom, Bolt(size, 8.8, length), rows, 40, pos, workshop=shop)
    if before:
        j.weld_f = 9
        j.stiffeners['col_web_plate'] = RectPlate(111, 222, 8)
        j.cost()
        j.stiffeners['col_web_plate'] = None
    j.weld_f = wf
    j.weld_w = ww
    for name, (sb, sh, st) in zip(('col_top_flange', 'col_bottom_flange', 'col_web_plate'), stiffeners):
        j.stiffeners[name] = RectPlate(sb, sh, st)
    if fresh:
        return j.cost(ws.Workshop({'plates': 1000}))
    return j.cost()


def fin_plate(tw, bp, hp, tp, n1, n2, size, length, a, before):
    beam = beam_profile(150, 10, tw, 15, 250, 300)
    bolt = Bolt(size, 8.8, length)
    plate = RectPlateWithHoles(bp, hp, tp, bolt.d0, [45, 40], 60, 70, n1, n2, 'S355')
    j = FinPlateJoint(beam, plate, bolt, 10, ws.Workshop({'plates': 1000}))
    if before:
        j.weld_size = 9
        plate.n1 = n1 + 2
        j.cost()
        plate.n1 = n1
    j.weld_size = a
    return j.cost()
