"""C06: member buckling (EN 1993-1-1, 6.3.1 and 6.3.2)."""
from ..kit import Kit
from .. import terms as t
from .c01 import RHS, CHS, ISE, WI, SS

EXPLAIN = ('Value graphs of the buckling functions and of SteelMember on a profile with symbolic area, moduli, strength '
           'and imperfection factors and a member with symbolic length, buckling length factors and internal forces, '
           'compared with EN 1993-1-1, 6.3.1, 6.3.2 and BB.2; decision diagrams of the choice of the buckling curve '
           'in the section constructors compared with Tables 6.2, 6.4 and 6.5.')
RULE = 'member buckling = EN 1993-1-1, 6.3'
E1 = 'metku.eurocodes.en1993.en1993_1_1'
CON = 'metku.eurocodes.en1993.constants'
SM = 'metku.structures.steel.steel_member'


class Member:
    """A steel member whose profile and forces are symbols."""

    def __init__(self, k):
        self.k = k
        for n in 'A fy E G L ky kz ay az alt algen It Iw Iy Iz h b tf Wply Wplz Wely Welz'.split():
            setattr(self, n, k.s(n))

    def profile(self, st):
        k = self.k
        o = k.fake(st, ISE, 'ISection', 'sec', A=self.A, E=self.E, It=self.It, Iw=self.Iw, h=self.h, b=self.b, tf=self.tf,
                   I=k.nd(st, (2,), [self.Iy, self.Iz]), Wpl=k.nd(st, (2,), [self.Wply, self.Wplz]),
                   Wel=k.nd(st, (2,), [self.Wely, self.Welz]), imp_factor=k.lst(st, self.ay, self.az),
                   imp_factor_LT=self.alt, imp_factor_LT_gen=self.algen, rotate=False, Ned=k.s('N0', '?'),
                   Med=k.lst(st, k.s('My0', '?'), k.s('Mz0', '?')), Ved=k.lst(st, k.s('Vy0', '?'), k.s('Vz0', '?')),
                   code=k.it.mod_lookup(SS, 'en1993_1_1'))
        k.strength(st, o, fy=self.fy, G=self.G)
        return o

    def new(self, st, forces=(), **kw):
        k = self.k
        m = k.new(st, SM, 'SteelMember', self.profile(st), self.L, Lcr=k.lst(st, self.ky, self.kz), **kw)
        for loc, f in forces:
            k.call(st, m, 'add_section', loc=k.n(loc), **f)
        return m


def run(r):
    k = Kit(r, 'ec3')
    g1 = k.s('g1')
    k.it.overrides[(CON, 'gammaM1')] = g1
    lam, al, A, fy, N, x, h, b, tf = k.ss('lam al A fy N x h b tf')
    for fn, args, ref, rargs in [('buckling_reduction_factor', [lam, al], 'chi', [lam, al]),
                                 ('slenderness', [A, fy, N], 'slenderness', [A, fy, N]),
                                 ('buckling_strength', [A, fy, x], 'nb_simple', [A, fy, x, g1])]:
        k.eq('fn.' + fn, (E1, fn), RULE, lambda st, fn=fn, args=args: k.f(st, E1, fn, *args),
             lambda st, ref=ref, args=rargs: k.sp(st, ref, *args))
    E, I, L = k.ss('E I L')

    # buckling curves
    tw, rr, T, D = k.ss('tw r T D')
    def curves(o, st, attr):
        return k.get(st, o, attr)

    def isec(st):
        o = k.new(st, ISE, 'ISection', h, b, tf, tw, rr, fy='S355')
        return o
    for grade, f in (('S355', 355), ('S460M', 460), ('S500', 500), ('S420', 420), ('S235', 235)):
        def mk(st, grade=grade):
            return k.new(st, ISE, 'ISection', h, b, tf, tw, rr, fy=grade)
        sh = k.shared(mk)

        def on(attr, sh=sh):
            def go(st):
                st, o = sh()
                return st, k.get(st, o, attr)
            return go
        k.eq('curves.ISection.%s' % grade, (ISE, 'ISection.__init__'), RULE, on('imp_factor'),
             lambda st, f=f: k.sp(st, 'rolled_curves', h, b, tf, k.n(f)))
        if grade == 'S355':
            k.eq('curves.ISection.LT_gen', (ISE, 'ISection.__init__'), RULE, on('imp_factor_LT_gen'),
                 lambda st: k.it.getitem(st, k.sp(st, 'rolled_lt', h, b), k.n(0)))
            k.eq('curves.ISection.LT', (ISE, 'ISection.__init__'), RULE, on('imp_factor_LT'),
                 lambda st: k.it.getitem(st, k.sp(st, 'rolled_lt', h, b), k.n(1)))
    hw, bt, bb, tt, tb = k.ss('hw bt bb tt tb')
    hh = t.add(hw, t.add(tt, tb))
    wsh = k.shared(lambda st: k.new(st, WI, 'WISection', hh, tw, k.lst(st, bt, bb), k.lst(st, tt, tb)))

    def won(attr):
        def go(st):
            st, o = wsh()
            return st, k.get(st, o, attr)
        return go
    k.eq('curves.WISection', (WI, 'WISection.__init__'), RULE, won('imp_factor'), lambda st: k.sp(st, 'welded_curves', bt, bb, tt, tb))
    for i, a in enumerate(('imp_factor_LT_gen', 'imp_factor_LT')):
        k.eq('curves.WISection.' + a, (WI, 'WISection.__init__'), RULE, won(a),
             lambda st, i=i: k.it.getitem(st, k.sp(st, 'welded_lt', hh, bt, bb), k.n(i)))
    k.eq('curves.RHS', (RHS, 'RHS.__init__'), RULE,
         lambda st: k.get(st, k.new(st, RHS, 'RHS', h, b, T), 'imp_factor'),
         lambda st: k.lst(st, k.sp(st, 'curve', 'c'), k.sp(st, 'curve', 'c')))
    k.eq('curves.CHS', (CHS, 'CHS.__init__'), RULE,
         lambda st: k.get(st, k.new(st, CHS, 'CHS', D, T), 'imp_factor'),
         lambda st: k.lst(st, k.sp(st, 'curve', 'c'), k.sp(st, 'curve', 'c')))

    # members
    k = Kit(r, 'ec3')
    E0, G0 = k.s('E0'), k.s('G0')
    k.it.overrides[(CON, 'E')] = E0
    k.it.overrides[(CON, 'G')] = G0
    m = Member(k)
    base = 'SteelMember.'

    def on(f, forces=(), **kw):
        def go(st):
            o = m.new(st, forces, **kw)
            return f(st, o)
        return go

    def both(ref, *args):
        """the reference for y and z"""
        def go(st):
            return k.lst(st, *[k.sp(st, ref, *[a[i] if isinstance(a, tuple) else a for a in args]) for i in (0, 1)])
        return go
    I2, k2, a2 = (m.Iy, m.Iz), (m.ky, m.kz), (m.ay, m.az)
    k.eq(base + 'ncrit', (SM, 'SteelMember.ncrit'), RULE, on(lambda st, o: k.call(st, o, 'ncrit')), both('ncr', m.E, I2, m.L, k2))
    k.eq(base + 'slenderness', (SM, 'SteelMember.slenderness'), RULE, on(lambda st, o: k.call(st, o, 'slenderness')),
         both('slend', m.A, m.fy, m.E, I2, m.L, k2))
    for how, f in [('buckling_strength', lambda st, o: k.call(st, o, 'buckling_strength')), ('NbRd', lambda st, o: k.get(st, o, 'NbRd'))]:
        k.eq(base + how, (SM, 'SteelMember.buckling_strength'), RULE, on(f), both('nb_rd', m.A, m.fy, m.E, I2, m.L, k2, a2))
    tors = [m.E, m.G, m.It, m.Iw, m.Iy, m.Iz]
    k.eq(base + 'ncrit_T', (SM, 'SteelMember.ncrit_T'), RULE, on(lambda st, o: k.call(st, o, 'ncrit_T')),
         lambda st: k.sp(st, 'ncr_t', *(tors + [m.A, m.L])))
    k.eq(base + 'slenderness_torsional', (SM, 'SteelMember.slenderness_torsional'), RULE,
         on(lambda st, o: k.call(st, o, 'slenderness_torsional')),
         lambda st: k.sp(st, 'slenderness', m.A, m.fy, k.sp(st, 'ncr_t', *(tors + [m.A, m.L]))))
    k.eq(base + 'torsional_buckling_strength', (SM, 'SteelMember.torsional_buckling_strength'), RULE,
         on(lambda st, o: k.call(st, o, 'torsional_buckling_strength')),
         lambda st: k.sp(st, 'nbt_rd', m.A, m.fy, *(tors + [m.L, m.az])))
    C1, C2, C3, kz, kw, Mcr, MRd = k.ss('C1 C2 C3 kfz kfw Mcr MRd')
    za, zs, zj = k.ss('za zs zj', '?')
    cargs = lambda st: dict(C=k.lst(st, C1, C2, C3), k=k.lst(st, kz, kw), za=za)
    k.eq(base + 'mcrit.dual', (SM, 'SteelMember.mcrit'), RULE, on(lambda st, o: k.call(st, o, 'mcrit', **cargs(st))),
         lambda st: k.sp(st, 'mcr_dual', E0, G0, m.Iz, m.Iw, m.It, m.L, C1, C2, kz, kw, za))

    def mono(st, o):
        p = k.obj(k.get(st, o, 'profile'))
        k.raw(st, p, 'zs', zs)
        k.raw(st, p, 'zj', zj)
        return k.call(st, o, 'mcrit', **cargs(st))
    k.eq(base + 'mcrit.mono', (SM, 'SteelMember.mcrit'), RULE, on(mono, symmetry='mono'),
         lambda st: k.sp(st, 'mcr_mono', E0, G0, m.Iz, m.Iw, m.It, m.L, C1, C2, C3, kz, kw, za, zs, zj))
    k.eq(base + 'mcrit.default', (SM, 'SteelMember.mcrit'), RULE, on(lambda st, o: k.call(st, o, 'mcrit')),
         lambda st: k.sp(st, 'mcr_dual', E0, G0, m.Iz, m.Iw, m.It, m.L, k.n(1.12), k.n(0.45), k.n(1), k.n(1), k.n(0)))
    for load in ('point', 'uniform'):
        for loc in ('top', 'middle', 'bottom'):
            for free in (True, False):
                k.eq(base + 'mcrit_cantilever.%s.%s.%s' % (load, loc, 'free' if free else 'fixed'),
                     (SM, 'SteelMember.mcrit_cantilever'), RULE,
                     on(lambda st, o, a=(load, loc, free): k.call(st, o, 'mcrit_cantilever', *a)),
                     lambda st, load=load, loc=loc, free=free: k.sp(
                         st, 'mcr_cantilever', E0, G0, m.E, m.G, m.h, m.tf, m.Iz, m.Iw, m.It, m.L, load == 'point', loc, free))
    A0, If = k.ss('A0 If')
    k.it.func_overrides[(ISE, 'ISection.compressed_flange')] = lambda it, st, a, kw: k.tup(A0, If)
    k.eq(base + 'mcrit_buckling', (SM, 'SteelMember.mcrit_buckling'), RULE, on(lambda st, o: k.call(st, o, 'mcrit_buckling')),
         lambda st: k.sp(st, 'mcr_flange', m.E, If, m.L, m.h))
    del k.it.func_overrides[(ISE, 'ISection.compressed_flange')]
    M1, M2, M3, N1, N2, N3 = [k.s(n, '?') for n in 'M1 M2 M3 N1 N2 N3'.split()]
    f3 = [(0, dict(ned=N1, myed=M1)), (0.5, dict(ned=N2, myed=M2)), (1, dict(ned=N3, myed=M3))]
    f2 = [(0, dict(ned=N1, myed=M1)), (1, dict(ned=N2, myed=M2))]
    for meth in ('general', 'specific'):
        k.eq(base + 'LT_buckling_strength.' + meth, (SM, 'SteelMember.LT_buckling_strength'), RULE,
             on(lambda st, o, meth=meth: k.call(st, o, 'LT_buckling_strength', Mcr, meth, MRd=MRd), f2[:1]),
             lambda st, meth=meth: k.sp(st, 'mb_rd', MRd, Mcr, m.algen if meth == 'general' else m.alt,
                                        k.sp(st, 'biggest', k.lst(st, M1)), meth == 'general'))
    k.eq(base + 'LT_slenderness', (SM, 'SteelMember.LT_slenderness'), RULE,
         on(lambda st, o: k.call(st, o, 'LT_slenderness', Mcr, MRd=MRd)), lambda st: k.sp(st, 'slenderness', MRd, k.n(1), Mcr))
    k.eq(base + 'required_shear_stiffness', (SM, 'SteelMember.required_shear_stiffness'), RULE,
         on(lambda st, o: k.call(st, o, 'required_shear_stiffness')),
         lambda st: k.sp(st, 's_required', m.E, m.G, m.Iw, m.It, m.Iz, m.L, m.h))
    k.eq(base + 'check_buckling', (SM, 'SteelMember.check_buckling'), RULE, on(lambda st, o: k.call(st, o, 'check_buckling'), f3),
         lambda st: k.sp(st, 'buckling_util', k.lst(st, N1, N2, N3), k.sp(st, 'nb_rd', m.A, m.fy, m.E, m.Iy, m.L, m.ky, m.ay),
                         k.sp(st, 'nb_rd', m.A, m.fy, m.E, m.Iz, m.L, m.kz, m.az)))
    C = k.s('C')
    k.it.func_overrides[(SS, 'SteelSection.section_class')] = lambda it, st, a, kw: C

    def mrd(st):
        return k.sp(st, 'm_rd', k.sp(st, 'modulus', C, m.Wply, m.Wely), m.fy, k.n(1))
    k.eq(base + 'check_LT_buckling', (SM, 'SteelMember.check_LT_buckling'), RULE,
         on(lambda st, o: k.call(st, o, 'check_LT_buckling'), f3),
         lambda st: k.sp(st, 'lt_util', k.lst(st, M1, M2, M3), mrd(st), k.sp(
             st, 'mcr_dual', E0, G0, m.Iz, m.Iw, m.It, m.L, k.n(1.12), k.n(0.45), k.n(1), k.n(1), k.n(0)), m.alt))
