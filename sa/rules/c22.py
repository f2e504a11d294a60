"""C22: fabrication costs of plates, members, joints and trusses."""
from fractions import Fraction

from .. import terms as t
from .c19 import Case as Base, positive

EXPLAIN = ('Scenarios that ask the workshop model for quotes (every cost centre with its own and with given capacity data, plates, '
           'truss members, welded joints and whole trusses; workshops with a history of other quotes) with symbolic dimensions, '
           'compared with a reference of the feature-based cost method.')
RULE = 'feature-based cost as stated'
WS = 'metku.cost.workshop'
PL = 'metku.structures.steel.plates'
PT = 'metku.raami.raami_plane_truss'
F = Fraction


class Case(Base):
    def __init__(self, r, hints=None):
        from ..kit import Kit
        self.k = Kit(r, 'cost', hints=hints)

    def eq(self, key, where, name, want, code, ref=None, ctx=None, assume=False):
        k = self.k
        k.eq(key, where, RULE, lambda st: (st, k.sp(st, 'costcase:' + name, *[self.val(st, v) for v in code])),
             lambda st: k.sp(st, want, *[self.val(st, v) for v in (ref if ref is not None else code)]), ctx, assume=assume)


def between(x, a, b):
    return positive(t.sub(x, t.num(a)), t.sub(t.num(b), x))


def both(*cs):
    """Facts lo < x < hi for (x, lo, hi)."""
    return positive(*[q for x, a, b in cs for q in (t.sub(x, t.num(a)), t.sub(t.num(b), x))])


HINTS = {'L': (5, 60), 'W': (3, 30), 'nw': (1, 4), 'inv': (1000, 500000), 'res': (0, 900), 'mt': (100, 5000), 't': (4, 29), 'tt': (31, 60),
         'cut': (200, 5000), 'piece': (300, 9000), 'area': (10**4, 10**6), 'size': (3, 12), 'weld': (100, 3000), 'u': (0.5, 1)}


def run(r):
    centres(r)
    history(r)
    plates(r)
    trusses(r)
    connections(r)


def centres(r):
    c = Case(r, HINTS)
    k = c.k
    p, i, n = k.ss('p i n')
    c.eq('annuity', (WS, 'annual_cost'), 'annuity', 'annuity', [p, i, n])
    L, W, nw, inv, res, mt, u = k.ss('L W nw inv res mt u')
    tp, tn, cons, en, fx, lab = k.ss('tp tn cons en fx lab')
    for y in (20, 7):
        c.eq('centre.%d' % y, (WS, 'CostCentre.cost'), 'centre', 'centre', [L, W, nw, inv, res, mt, y, tp, tn, cons, en, fx, u, lab])
    sp, piece, area, size, weld, cut, th = k.ss('sp piece area size weld cut t')
    c.eq('blasting', (WS, 'BlastingCost.cost'), 'blasting', 'blasting', [L, W, nw, sp, inv, res, mt, piece])
    c.eq('cutting', (WS, 'CuttingCost.cost'), 'cutting', 'cutting', [L, W, nw, inv, res, mt, th, cut])
    for x in (8, 30, F(61, 2), 45):
        c.eq('cutting.%s' % x, (WS, 'CuttingCost.cost'), 'cutting', 'cutting', [20, 10, 2, 280000, 0, 1000, x, cut])
    for paint in ('alkyd', 'epoxy', 'polyurethane', 'acryl'):
        c.eq('film.' + paint, (WS, 'PaintingCost.cost'), 'film', 'film', [paint])
        c.eq('painting.' + paint, (WS, 'PaintingCost.cost'), 'painting', 'painting', [L, W, nw, paint, area])
    for g in ('S355', 'S420', 'S550', 'S690'):
        for kind in ('fillet', 'butt'):
            c.eq('welding.%s.%s' % (g, kind), (WS, 'AssemblingCostWeld.cost'), 'welding', 'welding',
                 [L, W, nw, inv, res, mt, 10, g, size, weld, kind])
    m, h1, a1, b1, h2, a2, b2, t1 = k.ss('m h1 a1 b1 h2 a2 b2 t1')
    for g in ('S235', 'S355', 'S420', 'S500', 'S550', 'S690', 'S700'):
        for bev in (0, 1, 2):
            c.eq('sawing.%s.%d' % (g, bev), (WS, 'SawingCost.cost'), 'sawing', 'sawing',
                 [L, W, nw, inv, res, mt, 20, g, m, bev, [(h1, 4, a1, b1), (h2, 11, a2, b2)]],
                 [L, W, nw, inv, res, mt, 20, m, bev, [(h1, 4, a1, b1), (h2, 11, a2, b2)]])
    for x in (4, 5, 8, 10, 13, 15, 18, 20, 22, 25, 27, 30, 33, 35, 40):
        ends = [(h1, x, a1, b1)]
        c.eq('sawing.t%d' % x, (WS, 'SawingCost.cost'), 'sawing', 'sawing', [35, 15, 1, 310000, 0, 1000, 20, 'S355', m, 0, ends],
             [35, 15, 1, 310000, 0, 1000, 20, m, 0, ends])


def history(r):
    c = Case(r, HINTS)
    k = c.k
    other = k.ss('t0 cut0 piece0 area0 size0 weld0 m0')
    mine = k.ss('t cut piece area size weld m')
    h, a, b = k.ss('h a b')
    e0, e1 = [(90, 22, 700, 900)], [(h, 6, a, b), (120, 13, a, b)]
    for nm, x0, x in (('thin', 40, 12), ('thick', 12, 40), ('same', 12, 12)):
        o = tuple([x0] + other[1:] + [e0])
        q = tuple([x] + mine[1:] + [e1])
        for key, sc in (('after', 'after'), ('two_shops', 'two_shops')):
            k.eq('%s.%s' % (key, nm), (WS, 'CostCentre.cost'), RULE,
                 lambda st, o=o, q=q, sc=sc: (st, k.sp(st, 'costcase:' + sc, c.val(st, o), c.val(st, q))),
                 lambda st, x=x, sc=sc: quotes(c, st, x, mine, e1, 2 if sc == 'after' else 1))
    c.eq('custom', (WS, 'Workshop.__init__'), 'custom', 'custom', [30, 12, mine[1]], [30, 12, mine[1]])


def quotes(c, st, x, mine, ends, n):
    k = c.k
    q = [k.sp(st, 'cut', k.n(x), mine[1]), k.sp(st, 'blast', mine[2]), k.sp(st, 'paint', mine[3]), k.sp(st, 'weld', mine[4], mine[5]),
         k.sp(st, 'saw', mine[6], c.val(st, ends))]
    return k.lst(st, *(q * n))


def plates(r):
    c = Case(r, {'b': (100, 400), 'h': (450, 900), 'price': (800, 1500), 'a': (3, 10), 'd0': (14, 30), 'd1': (14, 30), 'b0': (100, 400)})
    k = c.k
    b, h, price, a, d0, d1, b0 = k.ss('b h price a d0 d1 b0')
    thick = (4, 5, F(11, 2), 6, 7, 8, 9, 10, 11, 12, 14, 15, 18, 20, 30, 35, 40, 45, 50, 55, 60, 70, 80, 90)
    for x in thick:
        c.eq('plate.t%s' % x, (PL, 'RectPlate.cost'), 'plate', 'plate', [b, h, x, 'S355', price, 0, []])
    for g in ('S235', 'S355', 'S420'):
        for nm, aw, holes in (('plain', 0, []), ('welded', a, []), ('holes', 0, [d0, d1, d0]), ('all', a, [d0, d1])):
            c.eq('plate.%s.%s' % (g, nm), (PL, 'RectPlate.cost'), 'plate', 'plate', [b, h, 12, g, price, aw, holes])
            for nm0, aw0, holes0 in (('plain', 0, []), ('all', 6, [d1, d1, d1])):
                if g == 'S355':
                    c.eq('plate.again.%s.%s' % (nm0, nm), (PL, 'RectPlate.cost'), 'plate_again', 'plate',
                         [b, h, 12, g, price, aw, holes, aw0, holes0, b0, 35], [b, h, 12, g, price, aw, holes])
    for n1, n2 in ((1, 1), (3, 1), (2, 3)):
        c.eq('bolted.%d.%d' % (n1, n2), (PL, 'RectPlateWithHoles.cost'), 'bolted_plate', 'bolted_plate',
             [b, h, 10, 'S355', price, d0, n1, n2], [b, h, 10, 'S355', price, d0, n1 * n2])
        for m1, m2 in ((4, 2), (1, 1)):
            c.eq('bolted.again.%d.%d.%d' % (n1, n2, m1), (PL, 'RectPlateWithHoles.cost'), 'bolted_again', 'bolted_plate',
                 [b, h, 10, 'S355', price, d0, n1, n2, m1, m2], [b, h, 10, 'S355', price, d0, n1 * n2])
    c.eq('plates.two', (PL, 'RectPlate.cost'), 'two_plates', 'bolted_plate', [b, h, 10, 'S355', price, d0, 3, b0, 40],
         [b, h, 10, 'S355', price, d0, 3])


def trusses(r):
    c = Case(r, {'l': (1000, 5000), 'H': (80, 150), 'B': (60, 140), 'A': (800, 4000), 'Au': (300, 700), 'un': (1, 3), 'A2': (800, 4000),
                 'Au2': (300, 700)})
    k = c.k
    l, H, B, A, Au, un, A2, Au2 = k.ss('l H B A Au un A2 Au2')
    for kind in ('brace', 'top', 'bottom'):
        for x in (4, 6, 12) if kind == 'brace' else (6,):
            args = [l, H, B, x, A, Au, un]
            want = 'brace' if kind == 'brace' else 'member'
            ref = args if kind == 'brace' else [l, A, Au, un]

            def expect(st, want=want, ref=ref):
                v = k.sp(st, want, *[c.val(st, q) for q in ref])
                return k.lst(st, *(list(k.items(st, v)) + [k.n(4 if want == 'brace' else 3)]))
            for nm, extra in (('member', []), ('member_again', [A2, Au2])):
                k.eq('%s.%s.%s' % (nm, kind, x), (PT, {'brace': 'TrussBrace', 'top': 'TopChord', 'bottom': 'BottomChord'}[kind] + '.cost'), RULE,
                     lambda st, nm=nm, kind=kind, args=args, extra=extra: (st, k.sp(st, 'costcase:' + nm, kind, *[c.val(st, q) for q in args + extra])),
                     expect)
    v = k.ss(' '.join('v%d' % i for i in range(40)))
    br = [list(v[0:4]), list(v[4:8]), list(v[8:12])]
    top = [list(v[12:15]), list(v[15:18])]
    bot = [list(v[18:21]), list(v[21:24]), list(v[24:27])]
    c.eq('truss', (PT, 'PlaneTruss.cost'), 'truss', 'truss', [br, top, bot, list(v[27:31])])
    c.eq('truss.empty', (PT, 'PlaneTruss.cost'), 'truss', 'truss', [br, top, [], []])
    R = k.s('R')
    T1, T2 = k.ss('T1 T2')
    b1 = ([F(3, 5), F(4, 5)], H, B, T1, R)
    b2 = ([F(-5, 13), F(12, 13)], B, H, T2, R)
    b3 = ([0, 1], H, H, T1, R)
    for nm, bs in (('one', [b1]), ('two', [b1, b2]), ('three', [b2, b3, b1])):
        def expect(st, bs=bs):
            x = k.sp(st, 'joint', c.val(st, [1, 0]), c.val(st, bs))
            return k.lst(st, x, x, x)
        k.eq('joint.' + nm, (PT, 'TubularJoint.cost'), RULE, lambda st, bs=bs: (st, k.sp(st, 'costcase:joint', c.val(st, [1, 0]), c.val(st, bs))),
             expect)


def connections(r):
    c = Case(r, {'b': (150, 250), 'h': (250, 500), 'tw': (6, 12), 'r': (10, 20), 'hw': (200, 400), 'bp': (100, 200), 'a': (4, 8),
                 'top': (30, 90), 'bot': (30, 90), 'wf': (4, 8), 'ww': (3, 6)})
    k = c.k
    b, h, tf, tw, R, hw, bp, top, bot, wf, ww, a = k.ss('b h tf tw r hw bp top bot wf ww a')
    ctx = both((top, 1, 200), (t.sub(h, bp), 1, 900))
    rows = [120, 40, -90]
    for i, (size, length, tp, n, st) in enumerate(((20, 90, 15, 3, []), (16, 60, 10, 1, [(95, 170, 10)]), (24, 100, 35, 2, [(90, 170, 12), (80, 160, 8), (300, 134, 8)]))):
        args = [b, tf, tw, R, hw, h, bp, tp, top, bot, rows[:n], size, length, wf, ww, st]
        ref = [b, tf, tw, R, hw, h, bp, tp, top, bot, n, size, length, wf, ww, st]
        for nm, before, fresh in (('new', False, False), ('again', True, False), ('shop', True, True)):
            c.eq('end_plate.%d.%s' % (i, nm), ('metku.structures.steel.end_plate_joint', 'EndPlateJoint.cost'), 'end_plate', 'end_plate',
                 args + [before, fresh], ref, ctx, assume=True)
    for size, length, n1, n2 in ((20, 40, 3, 1), (16, 60, 2, 2), (24, 100, 1, 1)):
        for before in (False, True):
            for x in (9, 31):
                c.eq('fin_plate.%d.%s.%d' % (size, before, x), ('metku.structures.steel.fin_plate_joint', 'FinPlateJoint.cost'), 'fin_plate', 'fin_plate',
                     [x, bp, h, 12, n1, n2, size, length, a, before], [x, bp, h, 12, n1 * n2, size, length, a], ctx, assume=True)
