"""C03: design resistances and utilisation ratios of steel cross-sections."""
from ..kit import Kit
from .. import terms as t
from .c01 import RHS, CHS, ISE, WI, SS

EXPLAIN = ('Value graphs of the cross-section resistance functions (EN 1993-1-1, 6.2) and of the utilisation '
           'ratios of the section classes, for symbolic geometry, strength, partial factors and action effects, '
           'compared with spec/ec3.py.')
RULE = 'cross-section resistance = EN 1993-1-1 reference'
E1 = 'metku.eurocodes.en1993.en1993_1_1'
CON = 'metku.eurocodes.en1993.constants'


def gammas(k):
    g = {}
    for n in ('gammaM0', 'gammaM1', 'gammaM2', 'gammaM5'):
        g[n] = k.s(n)
        k.it.overrides[(CON, n)] = g[n]
    return g


def run(r):
    k = Kit(r, 'ec3')
    g = gammas(k)
    A, fy, fu, W, h, m = k.ss('A fy fu W h m')
    g0, g2 = g['gammaM0'], g['gammaM2']
    for name, args, ref, extra in [
            ('tension_resistance', [A, fy], 'n_rd', [g0]), ('compression_resistance', [A, fy], 'n_rd', [g0]),
            ('net_section_resistance', [A, fu], 'nu_rd', [g2]), ('bending_resistance', [W, fy], 'm_rd', [g0]),
            ('shear_resistance', [A, fy], 'v_rd', [g0]), ('epsilon', [fy], 'epsilon', []),
            ('sway_imperfection', [h, m], 'sway', [])]:
        k.eq('fn.' + name, (E1, name), RULE, lambda st, name=name, args=args: k.f(st, E1, name, *args),
             lambda st, ref=ref, a=args + extra: k.sp(st, ref, *a))

    def sec(st, mod=RHS, cls='RHS', **kw):
        d = dict(A=A, Ashear=k.lst(st, k.s('Avy'), k.s('Avz')), Wpl=k.lst(st, k.s('Wply'), k.s('Wplz')),
                 Wel=k.lst(st, k.s('Wely'), k.s('Welz')), Ned=k.s('N', '?'),
                 Med=k.lst(st, k.s('My', '?'), k.s('Mz', '?')), Ved=k.lst(st, k.s('Vy', '?'), k.s('Vz', '?')),
                 code=k.it.mod_lookup('metku.sections.steel.steel_section', 'en1993_1_1'), rotate=False)
        d.update(kw)
        o = k.fake(st, mod, cls, 'sec', **d)
        k.strength(st, o, fy=fy)
        return o
    # the class is an input here (C04 decides it)
    C = k.s('C')
    k.it.func_overrides[(SS, 'SteelSection.section_class')] = lambda it, st, a, kw: C
    for mod, cls in [(RHS, 'RHS'), (CHS, 'CHS'), (ISE, 'ISection')]:
        base = cls + '.'
        k.eq(base + 'NRd', (SS, 'SteelSection.NRd'), RULE, lambda st, mod=mod, cls=cls: k.get(st, sec(st, mod, cls), 'NRd'),
             lambda st: k.sp(st, 'n_rd', A, fy, g0))
        k.eq(base + 'axial_force_resistance', (SS, 'SteelSection.axial_force_resistance'), RULE,
             lambda st, mod=mod, cls=cls: k.call(st, sec(st, mod, cls), 'axial_force_resistance'),
             lambda st: k.sp(st, 'n_rd', A, fy, g0))
        for p, av in [('VRd', 'Avz'), ('VzRd', 'Avz'), ('VyRd', 'Avy')]:
            k.eq(base + p, (SS, 'SteelSection.' + p), RULE, lambda st, p=p, mod=mod, cls=cls: k.get(st, sec(st, mod, cls), p),
                 lambda st, av=av: k.sp(st, 'v_rd', k.s(av), fy, g0))
        for ax in 'yz':
            k.eq(base + 'shear_force_resistance.' + ax, (SS, 'SteelSection.shear_force_resistance'), RULE,
                 lambda st, ax=ax, mod=mod, cls=cls: k.call(st, sec(st, mod, cls), 'shear_force_resistance', axis=ax),
                 lambda st, ax=ax: k.sp(st, 'v_rd', k.s('Av' + ax), fy, g0))
            for meth, pre in [('elastic_bending_resistance', 'Wel'), ('plastic_bending_resistance', 'Wpl')]:
                k.eq(base + meth + '.' + ax, (SS, 'SteelSection.' + meth), RULE,
                     lambda st, meth=meth, ax=ax, mod=mod, cls=cls: k.call(st, sec(st, mod, cls), meth, ax),
                     lambda st, pre=pre, ax=ax: k.sp(st, 'm_rd', k.s(pre + ax), fy, g0))
            k.eq(base + 'M%sRd' % ax, (SS, 'SteelSection.bending_resistance'), RULE,
                 lambda st, ax=ax, mod=mod, cls=cls: k.get(st, sec(st, mod, cls), 'M%sRd' % ax),
                 lambda st, ax=ax: k.sp(st, 'm_rd', k.sp(st, 'modulus', C, k.s('Wpl' + ax), k.s('Wel' + ax)), fy, g0))
            k.eq(base + 'bending_resistance.%s' % ax, (SS, 'SteelSection.bending_resistance'), RULE,
                 lambda st, ax=ax, mod=mod, cls=cls: k.it.getitem(
                     st, k.call(st, sec(st, mod, cls), 'bending_resistance', k.s('Cg'), ax), k.n(0)),
                 lambda st, ax=ax: k.sp(st, 'm_rd', k.sp(st, 'modulus', k.s('Cg'), k.s('Wpl' + ax), k.s('Wel' + ax)),
                                        fy, g0))
        k.eq(base + 'MRd', (SS, 'SteelSection.MRd'), RULE, lambda st, mod=mod, cls=cls: k.get(st, sec(st, mod, cls), 'MRd'),
             lambda st: k.sp(st, 'm_rd', k.sp(st, 'modulus', C, k.s('Wply'), k.s('Wely')), fy, g0))
    k.eq('sigma_com', (SS, 'SteelSection.sigma_com'), RULE, lambda st: k.call(st, sec(st), 'sigma_com'),
         lambda st: k.sp(st, 'stress', k.s('N', '?'), k.s('My', '?'), A, k.s('Wely')))
    k.eq('sigmaN', (SS, 'SteelSection.sigmaN'), RULE, lambda st: k.call(st, sec(st), 'sigmaN'),
         lambda st: k.sp(st, 'ratio', k.s('N', '?'), A))
    k.eq('sigmaM', (SS, 'SteelSection.sigmaM'), RULE, lambda st: k.call(st, sec(st), 'sigmaM'),
         lambda st: k.sp(st, 'ratio', k.s('My', '?'), k.s('Wely')))

    # combined resistance: 6.2.9.1
    n, M = k.s('n', '0+'), k.s('M')
    H, B, T, tf, bt, bb, tt, tb = k.ss('H B T tf bt bb tt tb')
    INT = 'moment_axial_force_interact'
    k.eq('RHS.interact', (RHS, 'RHS.' + INT), RULE,
         lambda st: k.call(st, sec(st, B=B, T=T, H=H), INT, n, M), lambda st: k.sp(st, 'hollow_mn', n, M, A, B, T))
    k.eq('ISection.interact', (ISE, 'ISection.' + INT), RULE,
         lambda st: k.call(st, sec(st, ISE, 'ISection', b=B, tf=T), INT, n, M),
         lambda st: k.sp(st, 'hollow_mn', n, M, A, B, T))
    k.eq('CHS.interact', (CHS, 'CHS.' + INT), RULE,
         lambda st: k.call(st, sec(st, CHS, 'CHS'), INT, n, M), lambda st: k.sp(st, 'tube_mn', n, M))

    # utilisation ratios
    NAMES = ['axial', 'shear', 'bending', 'combined']
    for mod, cls, f in [(RHS, 'RHS', lambda st, un, mr: k.sp(st, 'hollow_mn', un, mr, A, B, T)),
                        (ISE, 'ISection', lambda st, un, mr: k.sp(st, 'hollow_mn', un, mr, A, B, T)),
                        (CHS, 'CHS', lambda st, un, mr: k.sp(st, 'tube_mn', un, mr))]:
        for ax in 'yz':
            other = 'z' if ax == 'y' else 'y'

            def code(st, mod=mod, cls=cls, ax=ax):
                kw = dict(b=B, tf=T) if cls == 'ISection' else dict(B=B, T=T, H=H) if cls == 'RHS' else {}
                return k.call(st, sec(st, mod, cls, **kw), 'section_resistance', axis=ax)

            def want(st, f=f, ax=ax, other=other, zrule=None):
                N, V, Mx = k.s('N', '?'), k.s('V' + other, '?'), k.s('M' + ax, '?')
                NRd = k.sp(st, 'n_rd', A, fy, g0)
                VRd = k.sp(st, 'v_rd', k.s('Av' + other), fy, g0)
                MRd = k.sp(st, 'm_rd', k.sp(st, 'modulus', C, k.s('Wpl' + ax), k.s('Wel' + ax)), fy, g0)
                MN = f(st, k.sp(st, 'util', N, NRd), MRd)
                return k.sp(st, 'resistance_ratios', N, V, Mx, NRd, VRd, MRd, C, MN)
            gsh = k.shared(code)
            wsh = k.shared(want)

            def pick(x, i):
                st, v = x()
                return st, k.it.getitem(st, v, k.n(i))
            for i, nm in enumerate(NAMES):
                if ax == 'z' and nm == 'combined' and cls != 'CHS':
                    # 6.2.9.1(5)/(6): the z-axis rule uses the other pair of walls
                    if cls == 'RHS':
                        wz = k.shared(lambda st: want(st, lambda st2, un, mr: k.sp(st2, 'hollow_mn', un, mr, A, H, T), 'z', 'y'))
                    else:
                        wz = k.shared(lambda st: want(st, lambda st2, un, mr: k.sp(st2, 'open_mn_z', un, mr, A, B, T), 'z', 'y'))
                    k.eq('%s.section_resistance.z.combined' % cls, (SS, 'SteelSection.section_resistance'), RULE,
                         lambda st, x=gsh, i=i: pick(x, i), lambda st, x=wz, i=i: pick(x, i),
                         alt={'y-axis-rule': lambda st, x=wsh, i=i: pick(x, i)})
                    continue
                k.eq('%s.section_resistance.%s.%s' % (cls, ax, nm), (SS, 'SteelSection.section_resistance'), RULE,
                     lambda st, x=gsh, i=i: pick(x, i), lambda st, x=wsh, i=i: pick(x, i))

    # welded I: shear area and interaction
    k2 = Kit(r, 'ec3')
    g = gammas(k2)
    hw, tw, bt, bb, tt, tb, fy = k2.ss('hw tw bt bb tt tb fy')
    hh = t.add(hw, t.add(tt, tb))

    def wi(st):
        o = k2.new(st, WI, 'WISection', hh, tw, k2.lst(st, bt, bb), k2.lst(st, tt, tb))
        k2.strength(st, o, fy=fy)
        return o
    sh = k2.shared(wi)

    def on(f):
        st, o = sh()
        return st, f(st, o)
    k2.eq('WISection.VzRd', (WI, 'WISection.shear_area'), RULE, lambda st: on(lambda s, o: k2.get(s, o, 'VzRd')),
          lambda st: k2.sp(st, 'welded_vrd', hh, tt, tb, tw, fy, g['gammaM0']))
    k2.eq('WISection.NRd', (WI, 'WISection.area'), RULE, lambda st: on(lambda s, o: k2.get(s, o, 'NRd')),
          lambda st: k2.sp(st, 'n_rd', k2.sp(st, 'welded_area', hh, tw, bt, bb, tt, tb), fy, g['gammaM0']))
    n, M = k2.s('n', '0+'), k2.s('M')
    k2.eq('WISection.interact', (WI, 'WISection.moment_axial_force_interact'), RULE,
          lambda st: on(lambda s, o: k2.call(s, o, 'moment_axial_force_interact', n, M)),
          lambda st: k2.sp(st, 'welded_mn', n, M, k2.sp(st, 'welded_area', hh, tw, bt, bb, tt, tb),
                           k2.sp(st, 'prod', bt, tt), k2.sp(st, 'prod', bb, tb)))
    k2.eq('WISection.MfRd', (WI, 'WISection.MfRd'), RULE, lambda st: on(lambda s, o: k2.get(s, o, 'MfRd')),
          lambda st: k2.sp(st, 'flange_moment', hh, bt, bb, tt, tb, fy))
