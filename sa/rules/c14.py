"""C14: wind actions (EN 1991-1-4)."""
from ..kit import Kit
from .. import terms as t

EXPLAIN = ('Value graphs of the wind velocity, roughness, turbulence and pressure functions for every terrain category, of the zones and '
           'pressures of walls and flat roofs for symbolic building dimensions, and of the monopitch roof coefficients on each interval of '
           'roof angle, compared with EN 1991-1-4 (4.2-4.5, 5.2, 7.2).')
RULE = 'wind action = EN 1991-1-4'
W = 'metku.eurocodes.en1991.en1991_1_4'
HINTS = {'ln': (2, 100), 'wd': (2, 100), 'h': (1, 100), 'qp': (300, 1500), 'z': (0.5, 200), 'd': (2, 100), 'b': (2, 100)}


def run(r):
    k = Kit(r, 'actions', hints=HINTS)
    z, vb, c1, c2, qp, cp = k.ss('z vb c1 c2 qp cp')

    def f(name, args, ref, rargs, tag=''):
        k.eq('fn.' + name + tag, (W, name), RULE, lambda st: k.f(st, W, name, *args), lambda st: k.sp(st, ref, *rargs))
    k.eq('fn.basic_wind_velocity', (W, 'basic_wind_velocity'), RULE, lambda st: k.f(st, W, 'basic_wind_velocity', vb, c1, c2),
         lambda st: t.mul(t.mul(vb, c1), c2))
    for cat in range(5):
        f('terrain_roughness', [z, k.n(cat)], 'roughness', [z, k.n(cat)], '.%d' % cat)
        f('mean_wind_velocity', [vb, z, k.n(cat)], 'mean_velocity', [vb, z, k.n(cat)], '.%d' % cat)
        f('turbulence_intensity', [z, k.n(cat)], 'turbulence', [z, k.n(cat)], '.%d' % cat)
        f('peak_velocity_pressure', [z, k.n(cat), vb], 'peak_pressure', [z, k.n(cat), vb], '.%d' % cat)
    f('basic_velocity_pressure', [vb, c1], 'velocity_pressure', [vb, c1])
    for n in ('wind_pressure_ext', 'wind_pressure_int'):
        for s, c in [('', cp), ('.suction', t.neg(cp))]:
            k.eq('fn.' + n + s, (W, n), RULE, lambda st, n=n, c=c: k.f(st, W, n, qp, c), lambda st, c=c: t.mul(qp, c))

    for d in ('long', 'short'):
        walls(r, d)
    k = Kit(r, 'actions', hints=HINTS)
    d, b, h, qp = k.ss('d b h qp')
    for zone in 'FGHI':
        for q in ('length', 'width', 'cpe', 'we'):
            if zone == 'I' and q == 'cpe':
                pass
            k.eq('flat_roof.%s.%s' % (zone, q), (W, 'flat_roof_pressure'), RULE,
                 lambda st, zone=zone, q=q: pick(k, st, k.f(st, W, 'flat_roof_pressure', d, b, h, qp), zone, q),
                 lambda st, zone=zone, q=q: pick(k, st, k.sp(st, 'flat_roof', d, b, h, qp), zone, q))
    # sharp eaves are the default
    for direction in (0, 180):
        for i, lo in enumerate((5, 15, 30, 45, 60, 75)):
            mono(r, direction, i, lo)


def pick(k, st, v, *path):
    for p in path:
        v = k.it.getitem(st, v, p)
    return v


def walls(r, d):
    k = Kit(r, 'actions', hints=HINTS)
    ln, wd, h, qp = k.ss('ln wd h qp')
    face = t.sub(t.mul(ln if d == 'long' else wd, h), k.n(10))
    ctx = t.Ctx().with_sign(face, 1)
    for zone in 'ABCDE':
        for q in ('length', 'cpe', 'we'):
            k.eq('walls.%s.%s.%s' % (d, zone, q), (W, 'rect_building_wall_pressure'), RULE,
                 lambda st, zone=zone, q=q: pick(k, st, k.f(st, W, 'rect_building_wall_pressure', ln, wd, h, qp, d), zone, q),
                 lambda st, zone=zone, q=q: pick(k, st, k.sp(st, 'walls', ln, wd, h, qp, d), zone, q), ctx=ctx)


def mono(r, direction, i, lo):
    k = Kit(r, 'actions', hints={'a': (5, 90)})
    a = k.s('a')
    ctx = t.Ctx().with_sign(t.sub(a, k.n(lo)), 1)
    if i < 5:
        ctx = ctx.with_sign(t.sub(k.n((5, 15, 30, 45, 60, 75)[i + 1]), a), 1)
    angles = [('between', a, ctx)]
    angles.append(('at', k.n(lo), None))
    for tag, x, c in angles:
        for zone in 'FGH':
            for size in ('cpe10', 'cpe1'):
                k.eq('monopitch.%d.%d.%s.%s.%s' % (direction, lo, tag, zone, size), (W, 'ExternalPressureMonoRoof'), RULE,
                     lambda st, zone=zone, size=size, x=x: k.it.getitem(st, k.get(st, k.new(st, W, 'ExternalPressureMonoRoof', k.n(direction), x), zone), size),
                     lambda st, zone=zone, size=size, x=x: k.sp(st, 'mono', k.n(direction), zone, size, k.n(i), x), ctx=c, assume=c is not None)
