"""C05: plate buckling (EN 1993-1-5) functions and their use in welded sections."""
from ..kit import Kit
from .. import terms as t
from .c01 import WI

EXPLAIN = ('Value graphs of the plate-buckling functions on symbolic slenderness, stress ratio, dimensions and strengths, '
           'and of the effective-section, shear-buckling and patch-loading methods of welded I sections, compared with '
           'EN 1993-1-5 (4.4, Tables 4.1/4.2, clauses 5 and 6, annex A).')
RULE = 'plate buckling = EN 1993-1-5'
E5 = 'metku.eurocodes.en1993.en1993_1_5'
CON = 'metku.eurocodes.en1993.constants'


def run(r):
    k = Kit(r, 'ec3')
    g1, E = k.s('gammaM1'), k.s('E')
    k.it.overrides[(CON, 'gammaM1')] = g1
    k.it.overrides[(CON, 'E')] = E
    lp, b, th, e, ks, rho, fy, hw, a, tau, chi, eta = k.ss('lp b t eps k rho fy hw a tau chi eta')
    psi = k.s('psi', '?')
    le1 = t.Ctx().with_sign(t.sub(t.num(1), psi), 2)
    gt3 = le1.with_sign(t.add(psi, t.num(3)), 1)
    gm1 = le1.with_sign(t.add(psi, t.num(1)), 2)

    def f(name, args, ref, rargs=None, ctx=None, tag='', **kw):
        k.eq('fn.' + name + tag, (E5, name), RULE, lambda st: k.f(st, E5, name, *args, **kw),
             lambda st: k.sp(st, ref, *(rargs if rargs is not None else args)), ctx=ctx)
    f('reduction_factor_internal', [lp, psi], 'rho_internal', ctx=le1)
    f('reduction_factor_outstand', [lp], 'rho_outstand')
    f('lambda_p', [b, th, e, ks], 'lambda_p')
    f('buckling_factor_internal', [psi], 'k_internal', ctx=gt3)
    f('buckling_factor_outstand', [psi, 'tip'], 'k_outstand_tip', [psi], ctx=gm1, tag='.tip')
    f('buckling_factor_outstand', [psi, 'support'], 'k_outstand_support', [psi], ctx=gm1, tag='.support')
    f('effective_width_internal', [b, psi, rho], 'beff_internal', ctx=le1)
    f('effective_width_outstand', [b, psi, rho], 'beff_outstand', ctx=le1)
    f('shear_eta', [fy], 'eta_shear')
    for post, rigid in [('rigid', True), ('non-rigid', False)]:
        f('shear_buckling_reduction_factor', [lp, eta, post], 'chi_w', [lp, eta, rigid], tag='.' + post,
          ctx=t.Ctx().with_sign(t.sub(eta, t.num(1)), 2))
    f('shear_buckling_coefficient', [hw, a], 'k_tau')
    f('sigma_E', [th, b], 'sigma_e')
    f('tau_crit', [hw, a, th, b], 'tau_cr')
    f('shear_buckling_slenderness', [fy, tau], 'lam_w')
    f('shear_buckling_web', [chi, fy, hw, th], 'v_bw', [chi, fy, hw, th, g1])
    bf, tf, fyf, fyw, tw, ss, c, rM = k.ss('bf tf fyf fyw tw ss c rM')
    f('shear_buckling_flanges', [bf, tf, fyf, a, hw, th, fyw, rM], 'v_bf', [bf, tf, fyf, a, hw, th, fyw, rM, g1])
    for kind in 'abc':
        f('transverse_force_resistance', [fyw, hw, tw, fyf, bf, tf, ss, a], 'patch',
          [fyw, hw, tw, fyf, bf, tf, ss, a, kind, c, E, g1], tag='.' + kind, ltype=kind, c=c)
        f('transverse_force_resistance', [fyw, hw, tw, fyf, bf, tf, ss], 'patch',
          [fyw, hw, tw, fyf, bf, tf, ss, t.num(0), kind, c, E, g1], tag='.%s.unstiffened' % kind, ltype=kind, c=c)

    # welded I sections
    k = Kit(r, 'ec3')
    g1, g0, E = k.s('gammaM1'), k.s('gammaM0'), k.s('E')
    k.it.overrides[(CON, 'gammaM1')] = g1
    k.it.overrides[(CON, 'gammaM0')] = g0
    k.it.overrides[(CON, 'E')] = E
    hw, tw, bt, bb, tt, tb, aw, e, a = k.ss('hw tw bt bb tt tb aw e a')
    psi = k.s('psi', '?')
    fy = t.div(t.num(235), t.mul(e, e))
    N, M = k.s('N', '?'), k.s('M', '?')
    h = t.add(hw, t.add(tt, tb))
    two = t.num(2)
    # flat widths are positive
    cw = t.sub(hw, t.mul(two, t.mul(t.power(two, 0.5), aw)))

    def wi(st):
        o = k.new(st, WI, 'WISection', h, tw, k.lst(st, bt, bb), k.lst(st, tt, tb), weld_throat=aw)
        k.strength(st, o, fy=fy)
        k.set(st, o, 'Ned', N)
        k.set(st, o, 'Med', k.lst(st, M, t.num(0)))
        return o
    sh = k.shared(wi)

    def on(fn):
        def go(st):
            st, o = sh()
            return st, fn(st, o)
        return go
    dims = [hw, tw, bt, bb, tt, tb, aw, e]

    def flange(which):
        def go(st, o):
            rho = k.call(st, o, 'effective_flange', which)
            d = k.get(st, o, 'eff_top' if which == 'top' else 'eff_bottom')
            return k.tup(rho, k.it.getitem(st, d, 'rho'), k.it.getitem(st, d, 'bneg'))
        return go
    for which in ('top', 'bottom'):
        k.eq('WISection.effective_flange.' + which, (WI, 'WISection.effective_flange'), RULE, on(flange(which)),
             lambda st, which=which: k.sp(st, 'wi_eff_flange', *(dims + [which])))
    le1 = t.Ctx().with_sign(t.sub(t.num(1), psi), 2).with_sign(t.add(psi, t.num(3)), 1)
    le1 = le1.with_sign(cw, 1)
    k.eq('WISection.effective_web', (WI, 'WISection.effective_web'), RULE,
         on(lambda st, o: k.call(st, o, 'effective_web', psi)), lambda st: k.sp(st, 'wi_eff_web', *(dims + [psi])), ctx=le1)
    k.eq('WISection.Aeff', (WI, 'WISection.Aeff'), RULE, on(lambda st, o: k.get(st, o, 'Aeff')),
         lambda st: k.sp(st, 'wi_aeff', *dims))
    for post, rigid in [('rigid', True), ('non-rigid', False)]:
        k.eq('WISection.shear_buckling.' + post, (WI, 'WISection.shear_buckling_resistance'), RULE,
             on(lambda st, o, post=post: k.call(st, o, 'shear_buckling_resistance', stiffener_spacing=a, end_post=post)),
             lambda st, rigid=rigid: k.sp(st, 'wi_shear_buckling', *(dims + [a, rigid, N, M, g0, g1])))
    ss, c = k.ss('ss c')
    for kind in 'abc':
        k.eq('WISection.transverse.' + kind, (WI, 'WISection.transverse_load_resistance'), RULE,
             on(lambda st, o, kind=kind: k.call(st, o, 'transverse_load_resistance', ss, kind, a, c)),
             lambda st, kind=kind: k.sp(st, 'patch', fy, hw, tw, fy, bt, tt, ss, a, kind, c, E, g1))
