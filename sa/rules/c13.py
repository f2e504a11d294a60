"""C13: steel in fire (EN 1993-1-2)."""
from ..kit import Kit
from .. import terms as t

EXPLAIN = ('Value graphs of the reduction factors, temperature dependent strengths and stiffnesses, stress-strain relationships, thermal '
           'properties, fire curves, heat flux and steel temperature histories on symbolic temperature, strain, strength and section '
           'factor, compared with EN 1993-1-2 (clause 3, 4.2.5, Annexes A, C, D) and EN 1991-1-2 (3.2).')
RULE = 'material and temperature in fire = EN 1993-1-2'
F2 = 'metku.eurocodes.en1993.en1993_1_2'
TEMPS = [20, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1100, 1200]
HINTS = {'e': (1e-4, 0.3), 'E': (1e5, 3e5), 'fy': (150, 700), 'fu': (300, 900), 'T': (20, 1200)}


def run(r):
    def one(name, args, ref, rargs, tag, lo, hi):
        k = Kit(r, 'fire', hints=HINTS)
        S = {a: k.s(a) for a in 'T E fy fu x tg ts phi ef em ac'.split()}
        c = None
        if lo is not None:
            c = t.Ctx().with_sign(t.sub(S['T'], k.n(lo)), 2).with_sign(t.sub(k.n(hi), S['T']), 2)
        va, vr = [S.get(a, a) for a in args], [S.get(a, a) for a in rargs]
        k.eq('fn.' + name + tag, (F2, name), RULE, lambda st: k.f(st, F2, name, *va), lambda st: k.sp(st, ref, *vr), ctx=c, assume=c is not None)

    def f(name, args, ref, rargs, tag='', hot=True, split=True):
        """T E fy ... are symbols, other arguments constants; tabulated functions are compared on each interval of the table."""
        if not hot:
            one(name, args, ref, rargs, tag, None, None)
        elif not split:
            one(name, args, ref, rargs, tag, 20, 1200)
        else:
            for lo, hi in zip(TEMPS, TEMPS[1:]):
                one(name, args, ref, rargs, '%s.%d' % (tag, lo), lo, hi)
    for p in ('ky', 'kp', 'kE', 'kp02'):
        f('reduce_property', ['T', p], 'factor', [p, 'T'], '.' + p)
    for p in ('k02', 'ku', 'kE', 'kEct', 'epsU', 'ky'):
        f('reduce_property', ['T', p, '1.4301'], 'factor', ['s.' + p, 'T'], '.1.4301.' + p)
    f('reduce_property', ['T', 'kb', 'bolts'], 'factor_bolt', ['T'], '.bolts')
    f('kbT', ['T'], 'factor_bolt', ['T'])
    f('EaT', ['T', 'E'], 'scaled', ['kE', 'T', 'E'])
    f('EaT', ['T', 'E', '1.4301'], 'scaled', ['s.kE', 'T', 'E'], '.1.4301')
    f('fyT', ['T', 'fy'], 'scaled', ['ky', 'T', 'fy'])
    f('fpT', ['T', 'fy'], 'scaled', ['kp', 'T', 'fy'])
    f('f02pT', ['T', 'fy'], 'scaled', ['s.k02', 'T', 'fy'])
    f('fuT', ['T', 'fy'], 'fu_carbon', ['T', 'fy'])
    f('fuT', ['T', 'fu', '1.4301'], 'scaled', ['s.ku', 'T', 'fu'], '.1.4301')
    for n, w in [('therm_elongation', 'elongation'), ('therm_conductivity', 'conductivity'), ('spec_heat', 'heat'),
                 ('therm_elongation_stainless', 'elongation_stainless'), ('therm_conductivity_stainless', 'conductivity_stainless'),
                 ('spec_heat_stainless', 'heat_stainless')]:
        f(n, ['T'], w, ['T'], split=False)
    f('standard_fire', ['x'], 'standard_fire', ['x'], hot=False)
    f('hydrocarbon_fire', ['x'], 'hydrocarbon_fire', ['x'], hot=False)
    f('hnet', ['tg', 'ts', 'phi', 'ef', 'em', 'ac'], 'flux', ['tg', 'ts', 'phi', 'ef', 'em', 'ac'], hot=False)

    # stress-strain relationships, at the tabulated temperatures and between them
    for T0 in TEMPS[1:-1] + [60, 150, 280, 345, 450, 520, 630, 790, 860, 940, 1075, 1130]:
        stress(r, T0)

    # temperature histories
    for fn, stainless in (('steel_temp', False), ('stainless_steel_temp', True)):
        for curve in ('standard', 'hydrocarbon'):
            for n, start in ((1, None), (2, 20), (3, 20), (2, 350), (2, 700), (2, 850)):
                temperature(r, fn, stainless, curve, n, start)
    sections(r)


def stress(r, T0):
    k = Kit(r, 'fire', hints=HINTS)
    e, E, fy, fu = k.ss('e E fy fu')
    real = t.Ctx().with_sign(t.sub(E, t.mul(k.n(200), fy)), 2)
    for hard in (False, True):
        k.eq('stress.%d.%s' % (T0, hard), (F2, 'stress'), RULE,
             lambda st: k.f(st, F2, 'stress', e, k.n(T0), E, fy, hard),
             lambda st: k.sp(st, 'stress', e, k.n(T0), E, fy, hard), ctx=real)
    k = Kit(r, 'fire', hints=HINTS)
    e, E, fy, fu = k.ss('e E fy fu')
    k.eq('stress_stainless.%d' % T0, (F2, 'stress_stainless'), RULE,
         lambda st: k.f(st, F2, 'stress_stainless', e, k.n(T0), E, fy, fu),
         lambda st: k.sp(st, 'stress_stainless', e, k.n(T0), E, fy, fu))


def temperature(r, fn, stainless, curve, n, start):
    k = Kit(r, 'fire', hints=HINTS)
    ksh, am, t0 = k.ss('ksh am t0')
    tag = '%s.%s.%d.%s' % (fn, curve, n, start)
    start = t0 if start is None else k.n(start)
    k.eq(tag, (F2, fn), RULE,
         lambda st: k.f(st, F2, fn, ksh, am, k.n(5 * n), gas_temp=k.it.func(F2, curve + '_fire'), dt=k.n(5), Tsteel_ini=start),
         lambda st: k.sp(st, 'temperatures', ksh, am, k.n(5), k.n(n), start, curve, stainless))


def sections(r):
    ISE, SD = 'metku.sections.steel.ISection', 'metku.materials.steel_data'
    k = Kit(r, 'fire', hints=HINTS)
    h, b, A, Au, x = k.ss('h b A Au x')

    def sec(st, cls=('metku.sections.steel.ISection', 'ISection')):
        return k.fake(st, cls[0], cls[1], 'o', h=h, b=b, A=A, Au=Au, H=h, B=b)
    for i, a in enumerate(['section_factor', 'box_section_factor', 'shadow_effect']):
        for n, cls in [('ISection', (ISE, 'ISection')), ('IPE', (ISE, 'IPE'))]:
            k.eq('%s.%s' % (n, a), (ISE, n), RULE,
                 lambda st, a=a, cls=cls: k.call(st, sec(st, cls), a) if a == 'shadow_effect' else k.get(st, sec(st, cls), a),
                 lambda st, i=i: k.it.getitem(st, k.sp(st, 'shadow_i', h, b, A, Au), k.n(i)))
    for mod, n in [('metku.sections.steel.RHS', 'RHS'), ('metku.sections.steel.CHS', 'CHS')]:
        k.eq(n + '.shadow_effect', (mod, n), RULE, lambda st, mod=mod, n=n: k.call(st, sec(st, (mod, n)), 'shadow_effect'), lambda st: k.n(1))
        k.eq(n + '.section_factor', (mod, n), RULE, lambda st, mod=mod, n=n: k.get(st, sec(st, (mod, n)), 'section_factor'),
             lambda st: k.it.getitem(st, k.sp(st, 'shadow_i', h, b, A, Au), k.n(0)))

    # the same properties through the steel material
    for T0 in (20, 150, 280, 360, 450, 555, 790, 1060, 1130):
        for meth, ref in [('Etemp', ('scaled', 'kE', 'E')), ('fy_temp', ('scaled', 'ky', 'fy')), ('fp_temp', ('scaled', 'kp', 'fy')),
                          ('fu_temp', ('fu_steel', None, 'fy'))]:
            material(r, SD, T0, meth, ref)
    for T0 in (280, 450):
        for hard in (False, True):
            stress_temp(r, SD, T0, hard)


def material(r, SD, T0, meth, ref):
    k = Kit(r, 'fire', hints=HINTS)
    E, fy = k.ss('E fy')
    v = {'E': E, 'fy': fy}[ref[2]]
    args = [ref[1], k.n(T0), v] if ref[1] else [k.n(T0), v]
    k.eq('Steel.%s.%d' % (meth, T0), (SD, 'Steel.' + meth), RULE,
         lambda st: k.call(st, k.steel(st, fy=fy, E=E), meth, k.n(T0)), lambda st: k.sp(st, ref[0], *args))


def stress_temp(r, SD, T0, hard):
    k = Kit(r, 'fire', hints=HINTS)
    e, E, fy = k.ss('e E fy')
    k.eq('Steel.stress_temp.%d.%s' % (T0, hard), (SD, 'Steel.stress_temp'), RULE,
         lambda st: k.call(st, k.steel(st, fy=fy, E=E), 'stress_temp', e, k.n(T0), hard),
         lambda st: k.sp(st, 'stress', e, k.n(T0), E, fy, hard))
