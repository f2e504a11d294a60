"""C04: cross-section classification (EN 1993-1-1, Table 5.2)."""
from ..kit import Kit
from .. import terms as t
from .. import interp as I
from ..core import Undecided
from .c01 import RHS, CHS, ISE, WI, SS

EXPLAIN = ('Decision diagrams of the classification functions and of the class methods of every section family on '
           'symbolic slenderness, dimensions, yield strength (at least 235 MPa) and action effects, compared branch by '
           'branch with Table 5.2 of EN 1993-1-1.')
RULE = 'cross-section class = Table 5.2'
E1 = 'metku.eurocodes.en1993.en1993_1_1'
CON = 'metku.eurocodes.en1993.constants'


def run(r):
    k = Kit(r, 'ec3')
    e, rr, a, p = k.s('e'), k.s('r'), k.s('a', '0+'), k.s('psi', '?')
    c = t.Ctx().with_sign(t.sub(t.num(1), e), 2)
    for fn, ref, args in [('internal_part_in_bending', 'internal_bending', [rr, e]),
                          ('internal_part_in_compression', 'internal_compression', [rr, e]),
                          ('outstand_part_in_compression', 'outstand_compression', [rr, e]),
                          ('CHS_class', 'tube', [rr, e]),
                          ('internal_part_comp_bend', 'internal_comp_bend', [rr, e, a, p])]:
        k.eq('fn.' + fn, (E1, fn), RULE, lambda st, fn=fn, args=args: k.f(st, E1, fn, *args),
             lambda st, ref=ref, args=args: k.sp(st, ref, *args), ctx=c)
    fy = t.div(t.num(235), t.mul(e, e))
    H, B, T, R, D = k.ss('H B T R D')
    N, M = k.s('N', '?'), k.s('M', '?')

    def sec(st, mod, cls, **kw):
        d = dict(Ned=N, Med=k.lst(st, M, k.s('Mz', '?')), rotate=False,
                 code=k.it.mod_lookup('metku.sections.steel.steel_section', 'en1993_1_1'))
        d.update(kw)
        o = k.fake(st, mod, cls, 'sec', **d)
        k.strength(st, o, fy=fy)
        return o

    INT = (E1, 'internal_part_comp_bend')

    def parts(k, f):
        """The arguments handed to the compression-and-bending classification (decided on its own above)."""
        def go(st):
            k.it.func_overrides[INT] = lambda it, st, a, kw: I.Tup(tuple(a))
            try:
                v = f(st)
            finally:
                del k.it.func_overrides[INT]
            w = v[1] if isinstance(v, tuple) else v
            if not all(isinstance(x, I.Tup) for x in t.leaves(w)):
                raise Undecided('not classified by the shared function')
            return v
        return go

    def rhs(st):
        return sec(st, RHS, 'RHS', H=H, B=B, T=T, R=R)
    k.eq('RHS.flange', (RHS, 'RHS.flange_class'), RULE, lambda st: k.call(st, rhs(st), 'flange_class'),
         lambda st: k.sp(st, 'rhs_wall', 'internal_compression', B, R, T, e), ctx=c)
    k.eq('RHS.web_comp', (RHS, 'RHS.web_class_comp'), RULE, lambda st: k.call(st, rhs(st), 'web_class_comp'),
         lambda st: k.sp(st, 'rhs_wall', 'internal_compression', H, R, T, e), ctx=c)
    k.eq('RHS.web_bend', (RHS, 'RHS.web_class_bend'), RULE, lambda st: k.call(st, rhs(st), 'web_class_bend'),
         lambda st: k.sp(st, 'rhs_wall', 'internal_bending', H, R, T, e), ctx=c)
    k.eq('RHS.web_comp_bend', (RHS, 'RHS.web_class_comp_bend'), RULE,
         lambda st: k.call(st, rhs(st), 'web_class_comp_bend', N),
         lambda st: k.sp(st, 'rhs_web_comp_bend', N, H, R, T, fy, e), ctx=c,
         alt={'constant-2': lambda st: t.num(2)})

    def chs(st):
        return sec(st, CHS, 'CHS', D=D, T=T)
    for m, a_ in [('web_class_comp', []), ('web_class_bend', []), ('web_class_comp_bend', [N])]:
        k.eq('CHS.' + m, (CHS, 'CHS.' + m), RULE, lambda st, m=m, a_=a_: k.call(st, chs(st), m, *a_),
             lambda st: k.sp(st, 'tube', t.div(D, T), e), ctx=c)
    k.eq('CHS.flange', (CHS, 'CHS.flange_class'), RULE, lambda st: k.call(st, chs(st), 'flange_class'),
         lambda st: t.num(1))

    tf, tw, rad, hw, cf = k.ss('tf tw rad hw cf')
    h = t.add(hw, t.mul(t.num(2), t.add(tf, rad)))
    b = t.add(tw, t.mul(t.num(2), t.add(cf, rad)))

    def ise(st):
        return sec(st, ISE, 'ISection', h=h, b=b, tf=tf, tw=tw, r=rad, A=k.s('A'),
                   Wel=k.lst(st, k.s('Wy'), k.s('Wz')))
    for m, ref, x, th in [('flange_class', 'outstand_compression', cf, tf), ('web_class_comp', 'internal_compression', hw, tw),
                          ('web_class_bend', 'internal_bending', hw, tw)]:
        k.eq('ISection.' + m, (ISE, 'ISection.' + m), RULE, lambda st, m=m: k.call(st, ise(st), m),
             lambda st, ref=ref, x=x, th=th: k.sp(st, ref, t.div(x, th), e), ctx=c)
    k.eq('ISection.web_comp_bend', (ISE, 'ISection.web_class_comp_bend'), RULE,
         parts(k, lambda st: k.call(st, ise(st), 'web_class_comp_bend', N)),
         lambda st: k.sp(st, 'rolled_web_comp_bend', N, M, fy, k.s('A'), k.s('Wy'), h, hw, tw), ctx=c)

    # the class of the section from the classes of its parts
    for cls, mod in [('RHS', RHS), ('CHS', CHS), ('ISection', ISE)]:
        cf_, wc, wb, wcb = k.ss('cFlange cComp cBend cCompBend')
        for meth, v in [('flange_class', cf_), ('web_class_comp', wc), ('web_class_bend', wb), ('web_class_comp_bend', wcb)]:
            k.it.func_overrides[(mod, cls + '.' + meth)] = lambda it, st, a, kw, v=v: v
        k.eq(cls + '.section_class', (SS, 'SteelSection.section_class'), RULE,
             lambda st, mod=mod, cls=cls: k.call(st, sec(st, mod, cls), 'section_class'),
             lambda st: k.sp(st, 'section_class', N, M, cf_, wc, wb, wcb))

    # welded I
    k = Kit(r, 'ec3')
    g0 = k.s('gammaM0')
    k.it.overrides[(CON, 'gammaM0')] = g0
    e, N = k.s('e'), k.s('N', '?')
    c = t.Ctx().with_sign(t.sub(t.num(1), e), 2)
    fy = t.div(t.num(235), t.mul(e, e))
    hw, tw, bt, bb, tt, tb, aw = k.ss('hw tw bt bb tt tb aw')
    h = t.add(hw, t.add(tt, tb))

    def wi(st):
        o = k.new(st, WI, 'WISection', h, tw, k.lst(st, bt, bb), k.lst(st, tt, tb), weld_throat=aw)
        k.strength(st, o, fy=fy)
        return o
    sh = k.shared(wi)

    def on(m, *a):
        def go(st):
            st, o = sh()
            return st, k.call(st, o, m, *a)
        return go
    dims = [hw, tw, bt, bb, tt, tb, aw, e]
    k.eq('WISection.flange', (WI, 'WISection.flange_class'), RULE, on('flange_class'),
         lambda st: k.sp(st, 'wi_flange', *dims), ctx=c)
    k.eq('WISection.web_comp', (WI, 'WISection.web_class_comp'), RULE, on('web_class_comp'),
         lambda st: k.sp(st, 'wi_web_comp', *dims), ctx=c)
    k.eq('WISection.web_comp_bend', (WI, 'WISection.web_class_comp_bend'), RULE, parts(k, on('web_class_comp_bend', N)),
         lambda st: k.sp(st, 'wi_web_comp_bend', N, *dims), ctx=c,
         alt={'gross-area': lambda st: k.sp(st, 'wi_web_comp_bend_coded', N, g0, *dims)})
    zel, zpl = k.s('zel'), k.s('zpl')
    k.it.func_overrides[(WI, 'WISection.elastic_neutral_axis')] = lambda it, st, a, kw: zel
    k.it.func_overrides[(WI, 'WISection.plastic_neutral_axis')] = lambda it, st, a, kw: zpl
    k.eq('WISection.web_bend', (WI, 'WISection.web_class_bend'), RULE, on('web_class_bend'),
         lambda st: k.sp(st, 'wi_web_bend', zel, zpl, *dims), ctx=c)
