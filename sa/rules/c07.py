"""C07: beam-columns (EN 1993-1-1, 6.3.3 and Annex B)."""
from ..kit import Kit
from .. import terms as t
from .c01 import SS
from .c06 import Member, SM, E1, CON

EXPLAIN = ('Decision diagrams of the interaction and equivalent moment factors on symbolic slenderness, utilisation, class '
           'and moments, and of the beam-column check of SteelMember with symbolic internal forces at the ends and '
           'mid-span, compared with EN 1993-1-1, 6.3.3, Tables B.1-B.3.')
RULE = 'beam-column = EN 1993-1-1, 6.3.3 and Annex B'


def run(r):
    k = Kit(r, 'ec3')
    n, lam, Cm, C, ky, kz = k.ss('n lam Cm C ky kz')
    CmLT = k.s('CmLT')
    c = t.Ctx().with_sign(t.sub(CmLT, t.num(0.25)), 1)
    for fn, args, ref, rargs, kw, tag in [
            ('kyy', [n, lam, Cm, C], 'kyy', [n, lam, Cm, C], {}, ''),
            ('kzz', [n, lam, Cm, C], 'kzz_hollow', [n, lam, Cm, C], {}, '.hollow'),
            ('kzz', [n, lam, Cm, C, 'I'], 'kzz_open', [n, lam, Cm, C], {}, '.open'),
            ('kyz', [kz, C], 'kyz', [kz, C], {}, ''),
            ('kzy', [ky, n, lam, CmLT, C], 'kzy_stiff', [ky, C], {}, '.stiff'),
            ('kzy', [ky, n, lam, CmLT, C], 'kzy_ltb', [n, lam, CmLT, C], dict(susceptible_to_torsion=True), '.ltb')]:
        k.eq('fn.' + fn + tag, (E1, fn), RULE, lambda st, fn=fn, args=args, kw=kw: k.f(st, E1, fn, *args, **kw),
             lambda st, ref=ref, args=rargs: k.sp(st, ref, *args), ctx=c)
    M0, M1, Ms = [k.s(x, '?') for x in ('M0', 'M1', 'Ms')]
    fn = 'equivalent_moment_factor'
    k.eq('fn.%s.linear' % fn, (E1, fn), RULE, lambda st: k.f(st, E1, fn, k.lst(st, M0, M1)), lambda st: k.sp(st, 'cm_linear', M0, M1))
    for load in ('uniform', 'point'):
        k.eq('fn.%s.%s' % (fn, load), (E1, fn), RULE, lambda st, load=load: k.f(st, E1, fn, k.lst(st, M0, M1), Ms, load),
             lambda st, load=load: k.sp(st, 'cm', M0, M1, Ms, load == 'uniform'))

    k = Kit(r, 'ec3')
    E0, G0 = k.s('E0'), k.s('G0')
    k.it.overrides[(CON, 'E')] = E0
    k.it.overrides[(CON, 'G')] = G0
    m = Member(k)
    C = k.s('C')
    M0, M1, Ms, N0, N1, Ns = [k.s(x, '?') for x in 'M0 M1 Ms N0 N1 Ns'.split()]
    Mz = k.s('Mz')
    k.it.func_overrides[(SS, 'SteelSection.section_class')] = lambda it, st, a, kw: C
    pos = k.s('P'), k.s('Q'), k.s('R')

    def mrd(st):
        return k.sp(st, 'm_rd', k.sp(st, 'modulus', C, m.Wply, m.Wely), m.fy, k.n(1))

    def mb(st, Msym):
        return k.sp(st, 'mb_rd', mrd(st), k.sp(st, 'mcr_dual', E0, G0, m.Iz, m.Iw, m.It, m.L, k.n(1.12), k.n(0.45), k.n(1), k.n(1),
                                               k.n(0)), m.alt, k.sp(st, 'biggest', k.lst(st, *Msym)), False)

    def bc(tag, N, M, sway, load, mz=0, ltb=False, cls=None):
        locs = [0, 1] if len(M) == 2 else [0, 0.5, 1]

        def code(st):
            o = m.new(st, [(l, dict(ned=a, myed=b, mzed=(k.n(0) if not mz else mz))) for l, a, b in zip(locs, N, M)],
                      LT_buckling=ltb)
            kw = {} if cls is None else dict(section_class=cls)
            return k.call(st, o, 'check_beamcolumn', sway=sway, load=load, **kw)

        def want(st):
            cm = k.sp(st, 'moment_factor', sway, k.lst(st, *M), load == 'uniform')
            return k.sp(st, 'beam_column', k.lst(st, *N), k.lst(st, *M), not mz, m.A, m.fy, m.E, m.Iy, m.Iz, m.L, m.ky, m.kz, m.ay,
                        m.az, mrd(st), C if cls is None else cls, cm, mb(st, M) if ltb else k.n(0),
                        k.n(1) if ltb else None)
        gs, ws = k.shared(code), k.shared(want)
        for i, ax in enumerate('yz'):
            def pick(x, i=i):
                st, v = x()
                return st, k.it.getitem(st, v, k.n(i))
            k.eq('SteelMember.check_beamcolumn.%s.%s' % (tag, ax), (SM, 'SteelMember.check_beamcolumn'), RULE,
                 lambda st, x=gs, i=i: pick(x, i), lambda st, x=ws, i=i: pick(x, i))
    neg = [t.neg(x) for x in pos]
    bc('sway', [N0, N1], [M0, M1], True, 'uniform')
    bc('linear', neg[:2], [M0, pos[1]], False, 'uniform')
    # mid-span moment between / beyond the end moments, same and opposite sign
    p, q, w = pos
    big, mid = t.add(p, t.add(q, w)), t.add(p, q)
    for load in ('uniform', 'point'):
        bc(load, neg[:1] * 3, [mid, big, p], False, load)
        bc(load + '.hogging', neg[:1] * 3, [mid, t.neg(big), t.neg(p)], False, load)
        bc(load + '.small', neg[:1] * 3, [t.neg(big), p, q], False, load)
    bc('minor', neg[:2], [M0, pos[1]], True, 'uniform', mz=Mz)
    bc('class', neg[:2], [pos[0], pos[1]], True, 'uniform', cls=k.s('Cg'), mz=Mz)
    bc('ltb', neg[:2], [pos[0], pos[1]], True, 'uniform', ltb=True)
