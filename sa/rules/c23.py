"""C23: truss generators: nodes, connectivity, joints, supports, loads and symmetry of roof trusses."""
from fractions import Fraction

from .. import terms as t
from .c19 import Case as Base, positive

EXPLAIN = ('Scenarios that generate roof trusses (K, N and KT topology, bottom chord as long as the top chord or shorter, first diagonal up '
           'or down, with and without edge verticals), Vierendeel trusses and trusses of given bars with symbolic dimensions, compared '
           'with a reference of the division into panels, the web, the joints, the supports and the loads.')
RULE = 'truss generated as described'
PT = 'metku.raami.raami_plane_truss'
VT = 'metku.raami.raami_vierendeel'
ST = 'metku.raami.raami_simple_truss'
F = Fraction
HINTS = {'L1': (12000, 14000), 'L2': (11500, 13500), 'L': (10000, 20000), 'h1': (900, 1500), 'h2': (2000, 3000), 'd1': (700, 1200),
         'd2': (800, 1300), 'slope': (2, 12), 'dy': (100, 400), 'span': (9000, 15000), 'H': (800, 2000)}


class Case(Base):
    def __init__(self, r, hints=None):
        from ..kit import Kit
        self.k = Kit(r, 'truss', hints=hints)

    def eq(self, key, where, name, code, ref=None, ctx=None, assume=False):
        k = self.k
        k.eq(key, where, RULE, lambda st: (st, k.sp(st, 'trusscase:' + name, *[self.val(st, v) for v in code])),
             lambda st: k.sp(st, name, *[self.val(st, v) for v in (ref if ref is not None else code)]), ctx, assume=assume)


def run(r):
    roofs(r)
    loads(r)
    joints(r)
    vierendeel(r)
    bars(r)


def modes(dx):
    """(label, dx, first diagonal up, edge verticals)"""
    yield 'short', dx, False, True
    for up in (False, True):
        for v in (False, True):
            yield ('up' if up else 'down') + ('' if v else '.open'), 0, up, v


def roofs(r):
    c = Case(r, HINTS)
    L1, L2, L, h1, h2, d1, d2, a, b, g, dy = c.ss('L1 L2 L h1 h2 d1 d2 a b g dy', '+')
    gen = (PT, 'SlopedTruss.generate_topology')
    ctx = positive(t.sub(h2, h1), t.sub(L1, d1), t.sub(L2, d2), t.sub(L, d1), t.sub(L, d2))
    own = positive(t.sub(h2, h1), t.sub(L, d1), *[t.sub(x, t.num(10**6)) for x in (a, b, g)])
    for top in ('K', 'N', 'KT'):
        for n in (2, 3, 4):
            for nm, d, up, v in modes(d1):
                key = '%s.%s.%d' % (top, nm, n)
                e = 0 if isinstance(d, int) else d2
                if v and n == (2 if top == 'KT' else 3):
                    c.eq('profiles.' + key, gen, 'profiles', [(top, n, L, L, d, d, h1, h2, up, v), a, b, g], None, own, True)
                if v and n < 4:
                    c.eq('lines.' + key, gen, 'lines', [(top, n, L1, L2, d, e, h1, h2, up, v)], None, ctx, True)
                    c.eq('order.' + key, gen, 'order', [(top, n, L, L, d, d, h1, h2, up, v)], None, ctx, True)
                    if top == 'K' and nm == 'short':
                        c.eq('nodes.' + key, gen, 'coordinates', [(top, n, L, L, d, d, h1, h2, up, v)], None, ctx, True)
                    elif top != 'K':
                        c.eq('nodes.' + key, gen, 'coordinates', [(top, n, L1, L2, d, e, h1, h2, up, v)], None, ctx, True)
                c.eq('web.' + key, gen, 'members', [(top, n, L, L, d, d, h1, h2, up, v)], None, ctx, True)
            for nm, d, up, v in modes(d1):
                if v and n == 3:
                    c.eq('supports.%s.%s' % (top, nm), (PT, 'SlopedTruss.generate_supports'), 'supports',
                         [(top, n, L, L, d, d, h1, h2, up, v)], None, ctx, True)
                    if top != 'N' and up:
                        c.eq('supports.%s.right.short' % top, (PT, 'SlopedTruss.generate_supports'), 'supports',
                             [(top, n, L, L, 0, d2, h1, h2, up, v)], None, ctx, True)
    for top in ('K', 'N', 'KT'):
        c.eq('supports.%s.left.short' % top, (PT, 'SlopedTruss.generate_supports'), 'supports',
             [(top, 3, L, L, d1, 0, h1, h2, False, True)], None, ctx, True)
    slope = c.k.s('slope', '+')
    init = (PT, 'SlopedTruss.__init__')
    c.eq('shape.heights', init, 'shape', [L1, L2, h1, h2, None], None, ctx, True)
    angle = t.div(t.mul(slope, t.PI()), t.num(180))
    rise = t.mul(L1, t.fn('tan', angle))
    steep = positive(rise, t.fn('sin', angle), t.fn('cos', angle), t.sub(h2, rise))
    c.eq('shape.eaves', init, 'shape', [L1, L2, h1, None, slope], None, steep, True)
    c.eq('shape.ridge', init, 'shape', [L1, L2, None, h2, slope], None, steep, True)
    c.eq('bottom.moved', (PT, 'PlaneTruss.bottom_chord_dy'), 'moved', [('N', 3, L1, L2, 0, 0, h1, h2, False, True), dy], None, ctx, True)


def loads(r):
    c = Case(r, dict(HINTS, z1=(4100, 7900), z2=(8100, 11900), z3=(17000, 19000)))
    L, h1, h2, d1, q, z1, z2, z3 = c.ss('L h1 h2 d1 q z1 z2 z3', '+')
    ctx = positive(t.sub(h2, h1), t.sub(L, d1))
    for top in ('K', 'N', 'KT'):
        for chord in ('top', 'bottom'):
            for d in (0, d1):
                c.eq('uniform.%s.%s%s' % (top, chord, '' if isinstance(d, int) else '.short'), (PT, 'SlopedTruss.generate_uniform_load'), 'uniform',
                     [(top, 3, L, L, d, d, h1, h2, False, True), q, chord, 2, 'snow'], None, ctx, True)
    qs = [c.k.s('q%d' % i, '?') for i in range(5)]
    w = (PT, 'SlopedTruss.generate_piecewise_uniform_load')
    case = ('N', 3, 12000, 12000, 0, 0, 1000, 2000, False, True)
    inside = positive(*[x for z, a, b in ((z1, 4000, 8000), (z2, 8000, 12000), (z3, 16000, 20000))
                        for x in (t.sub(z, t.num(a)), t.sub(t.num(b), z))])
    for nm, x in (('one', [z1]), ('two', [z1, z3]), ('adjacent', [z1, z2]), ('three', [z1, z2, z3]), ('node', [8000]),
                  ('nodes', [4000, 16000]), ('mixed', [4000, z2, 20000]), ('next', [8000, z2]), ('before', [z1, 8000]),
                  ('beyond', [8000, 30000]), ('ends', [0, 24000])):
        c.eq('zones.' + nm, w, 'zones', [case, qs[:len(x) + 1], x, 1, 'wind'], None, inside, True)


def joints(r):
    c = Case(r)
    for top in ('K', 'N', 'KT'):
        for nm, d, up, v in modes(1000):
            case = (top, 2, 12000, 12000, d, d, 1000, 2000, up, v)
            c.eq('joints.%s.%s' % (top, nm), (PT, 'SlopedTruss.generate_joints'), 'joints', [case])
            if v:
                c.eq('mirror.%s.%s' % (top, nm), (PT, 'SlopedTruss.symmetry'), 'pairs', [case])


def vierendeel(r):
    c = Case(r, HINTS)
    x0, y0, q, p0, p1 = c.ss('x0 y0 q p0 p1')
    span, H = c.ss('span H', '+')
    for n in (2, 3, 5):
        c.eq('vierendeel.%d' % n, (VT, 'VierendeelTruss.generate_topology'), 'frame_grid', [x0, y0, span, H, n])
    c.eq('vierendeel.joints', (VT, 'VierendeelTruss.generate_joints'), 'frame_joints', [0, 0, 12000, 1000, 3])
    for chord in ('top', 'bottom'):
        c.eq('vierendeel.loads.' + chord, (VT, 'VierendeelTruss.generate_uniform_load'), 'frame_loads',
             [x0, y0, span, H, 4, q, [p0, p1], chord, 3])


def bars(r):
    c = Case(r)
    x = [[c.k.s('%s%d' % (a, i), '?') for a in 'xy'] for i in range(4)]
    ties = [[0, 1], [2, 0], [0, 3], [1, 3]]
    for kind in ('general', 'steel'):
        c.eq('bars.' + kind, (ST, 'SimpleTruss.__init__'), 'bars', [x, ties, kind])
