"""C17: bolts, welds and bolted end-plate joints (EN 1993-1-8)."""
from fractions import Fraction
from ..kit import Kit
from .. import terms as t
from .. import interp as I

EXPLAIN = ('Value graphs of the bolt, weld and component resistances and stiffnesses on symbolic dimensions, strengths and partial '
           'factors, of the effective lengths and failure modes of equivalent T-stubs for every place of a bolt row, alone and in groups, '
           'and of the moment resistance and initial stiffness of end-plate joints, compared with EN 1993-1-8 (3.6, 3.10, 4.5, 6.2, 6.3).')
RULE = 'joint component = EN 1993-1-8'
E8 = 'metku.eurocodes.en1993.en1993_1_8.en1993_1_8'
CM = 'metku.eurocodes.en1993.en1993_1_8.component_method'
EP = 'metku.structures.steel.end_plate_joint'
IS = 'metku.sections.steel.ISection'
CON = 'metku.eurocodes.en1993.constants'
SIZES = {12: (84.3, 13), 16: (157, 18), 20: (245, 22), 24: (353, 26), 30: (561, 33), 36: (817, 39)}
CLASSES = {'4.6': (240, 400, '0.6'), '4.8': (320, 400, '0.5'), '5.6': (300, 500, '0.6'), '5.8': (400, 500, '0.5'),
           '6.8': (480, 600, '0.5'), '8.8': (640, 800, '0.6'), '10.9': (900, 1000, '0.5')}
HINTS = {'bt': (0, 2), 'e': (20, 80), 'm': (20, 60), 'm2': (20, 60), 'w': (80, 150), 'bp': (120, 300), 'ex': (20, 60), 'e1': (20, 200), 'p': (50, 200),
         'tf': (8, 25), 'fy': (235, 460), 'Ft': (5e4, 4e5), 'n': (20, 50)}


def run(r):
    k = Kit(r, 'joints', hints=HINTS)
    n = k.n
    g0, g1, g2 = k.ss('gammaM0 gammaM1 gammaM2')

    def gammas():
        for nm, v in (('gammaM0', g0), ('gammaM1', g1), ('gammaM2', g2)):
            k.it.overrides[(CON, nm)] = v
    gammas()

    def f(name, args, ref, rargs, tag='', mod=E8, ctx=None, **kw):
        k.eq('fn.' + name + tag, (mod, name), RULE, lambda st: k.f(st, mod, name, *args, **kw), lambda st: k.sp(st, ref, *rargs), ctx=ctx, assume=ctx is not None)

    # ------------------------------------------------ bolts
    fub, fu, A, As, d, d0, tp, e1, e2, p1, p2, k2 = k.ss('fub fu A As d d0 tp e1 e2 p1 p2 k2')
    for c, (fyb, fubv, av) in CLASSES.items():
        cls = n(Fraction(c))
        for thr in (True, False):
            f('bolt_shear_resistance', [fub, A, cls, thr], 'bolt_shear', [fub, A, n(Fraction(av) if thr else Fraction('0.6')), g2],
              '.%s.%s' % (c, 'thread' if thr else 'shank'))
    f('bolt_tension_resistance', [fub, As, k2], 'bolt_tension', [fub, As, k2, g2])
    f('bolt_tension_resistance', [fub, As], 'bolt_tension', [fub, As, n(Fraction('0.9')), g2], '.default')
    f('bolt_punching_shear_resistance', [d, tp, fu], 'punching', [d, tp, fu, g2])
    F1, F2, F3, F4 = k.ss('F1 F2 F3 F4')
    f('shear_and_tension_resistance', [F1, F2, F3, F4], 'shear_tension', [F1, F2, F3, F4])
    for con in (True, False):
        f('block_tearing', [p1, fu, A, As, con], 'block_tearing', [p1, fu, A, As, con, g0, g2], '.%s' % con)
    u, psi = k.ss('u psi')
    f('stiffness_ratio', [u, psi], 'stiffness_ratio', [u, psi])
    f('stiffness_ratio', [u], 'stiffness_ratio', [u, n(Fraction('2.7'))], '.bolted')

    def bolt(st, size, cls='8.8', length=50):
        return k.new(st, E8, 'Bolt', n(size), n(Fraction(cls)), n(length))

    POS = [(a, b) for a in ('edge', 'inner') for b in ('edge', 'inner')]
    for a, b in POS:
        def bearing(st, a=a, b=b):
            return k.f(st, E8, 'bolt_bearing_resistance', fub, fu, d, tp, k.lst(st, e1, e2), k.lst(st, p1, p2), d0, a, b)
        k.eq('fn.bolt_bearing_resistance.%s.%s' % (a, b), (E8, 'bolt_bearing_resistance'), RULE, bearing,
             lambda st, a=a, b=b: k.sp(st, 'bolt_bearing', fub, fu, d, d0, tp, e1, e2, p1, p2, b == 'edge', a == 'edge', g2))
        for size, cls in ((12, '10.9'), (24, '8.8')):
            def method(st, a=a, b=b, size=size, cls=cls):
                return st, k.call(st, bolt(st, size, cls), 'bearing_resistance', fu, tp, k.lst(st, e1, e2), k.lst(st, p1, p2), a, b)
            k.eq('bolt.bearing.%s.%s.%d' % (a, b, size), (E8, 'Bolt.bearing_resistance'), RULE, method,
                 lambda st, a=a, b=b, size=size, cls=cls: k.sp(st, 'bolt_bearing', n(CLASSES[cls][1]), fu, n(size), n(SIZES[size][1]), tp, e1, e2, p1, p2,
                                                             b == 'edge', a == 'edge', g2))

    def values(st, b):
        return k.lst(st, *[k.get(st, b, x) for x in ('d', 'size', 'd0', 'A', 'As', 'fyb', 'fub')],
                     k.call(st, b, 'shear_resistance', True), k.call(st, b, 'shear_resistance', False), k.call(st, b, 'shear_resistance'),
                     k.call(st, b, 'tension_resistance'), k.call(st, b, 'tension_resistance', n(Fraction('0.63'))))

    def bolt_want(st, size, cls):
        as_, hole = SIZES[size]
        fyb, fubv, av = CLASSES[cls]
        S = n(Fraction(str(as_)))
        A_ = t.mul(t.PI(), n(Fraction(size * size, 4)))
        thr = k.sp(st, 'bolt_shear', n(fubv), S, n(Fraction(av)), g2)
        return k.lst(st, n(size), n(size), n(hole), A_, S, n(fyb), n(fubv), thr, k.sp(st, 'bolt_shear', n(fubv), A_, n(Fraction('0.6')), g2), thr,
                     k.sp(st, 'bolt_tension', n(fubv), S, n(Fraction('0.9')), g2), k.sp(st, 'bolt_tension', n(fubv), S, n(Fraction('0.63')), g2))
    for size in SIZES:
        for cls in CLASSES if size == 20 else ('8.8', '10.9'):
            k.eq('bolt.new.%d.%s' % (size, cls), (E8, 'Bolt.__init__'), RULE, lambda st, s=size, c=cls: (st, values(st, bolt(st, s, c))),
                 lambda st, s=size, c=cls: bolt_want(st, s, c))
    for a, b in ((12, 36), (36, 12), (20, 24), (24, 16), (16, 30), (30, 20)):
        def resized(st, a=a, b=b):
            o = bolt(st, a)
            k.set(st, o, 'size', n(b))
            new = bolt(st, b)
            dims = ['head_t', 'head_d', 'nut_t', 'nut_e', 'washer_t', 'washer_d', 'length', 'bolt_type', 'dw']
            return st, k.lst(st, values(st, o), k.lst(st, *[k.get(st, o, x) for x in dims]))

        def resized_want(st, b=b):
            new = bolt(st, b)
            dims = ['head_t', 'head_d', 'nut_t', 'nut_e', 'washer_t', 'washer_d', 'length', 'bolt_type', 'dw']
            return st, k.lst(st, bolt_want(st, b, '8.8'), k.lst(st, *[k.get(st, new, x) for x in dims]))
        k.eq('bolt.resized.%d.%d' % (a, b), (E8, 'Bolt.size'), RULE, resized, resized_want)

    # ------------------------------------------------ welds
    for grade, beta in (('S235', '0.8'), ('S275', '0.85'), ('S355', '0.9'), ('S420', '1')):
        for fn, ref in (('full_strength_weld_throat', 'weld_double'), ('full_strength_weld_tube', 'weld_single')):
            def weld(st, fn=fn, grade=grade):
                return st, k.f(st, E8, fn, k.new(st, 'metku.materials.steel_data', 'Steel', grade))

            def weld_want(st, ref=ref, grade=grade, beta=beta):
                m_ = k.new(st, 'metku.materials.steel_data', 'Steel', grade)
                return st, k.sp(st, ref, n(Fraction(beta)), k.get(st, m_, 'fy'), k.get(st, m_, 'fu'), g0, g2)
            k.eq('weld.%s.%s' % (fn, grade), (E8, fn), RULE, weld, weld_want)

    # ------------------------------------------------ components
    bt, beff, tw, Avc, fy, E, dwc, z, tf, leff, m, Lb = k.ss('bt beff tw Avc fy E dwc z tf leff m Lb')
    RANGES = {'low': (0, '0.5'), 'rising': ('0.5', 1), 'high': (1, 2)}

    def betas(kind):
        lo, hi = RANGES[kind]
        return t.Ctx().with_sign(t.sub(bt, n(Fraction(lo))), 1).with_sign(t.sub(n(Fraction(hi)), bt), 2 if kind == 'low' else 1)
    for kind in RANGES:
        f('min_coeff_w', [bt, beff, tw, Avc], 'omega', [bt, beff, tw, Avc], '.' + kind, CM, ctx=betas(kind))
    for v in (1, 2):
        f('min_coeff_w', [n(v), beff, tw, Avc], 'omega', [n(v), beff, tw, Avc], '.%d' % v, CM)

    def col(st, **kw):
        a = dict(h=k.s('hc'), b=k.s('bc'), tf=k.s('tfc'), tw=k.s('twc'), r=k.s('rc'), fy=fy, E=E, eps=k.s('eps'), hw=k.s('dwc'))
        a.update(kw)
        return k.fake(st, E8, 'Bolt', 'column', Ashear=k.lst(st, k.s('Avy'), Avc), **a)
    tfc, twc, rc, bc = k.ss('tfc twc rc bc')
    MRd, h, tfb, ap, eb, sig = k.s('MRd'), k.s('h'), k.s('tfb'), k.s('ap'), k.s('eb'), k.s('sig', '?')

    def c(name, code, want, ctx=None):
        k.eq('component.' + name, (CM, name.split('.')[0]), RULE, code, want, ctx=ctx, assume=ctx is not None)
    c('col_web_shear', lambda st: k.f(st, CM, 'col_web_shear', col(st)), lambda st: k.sp(st, 'web_shear', fy, Avc, g0))
    c('col_web_shear_k', lambda st: k.f(st, CM, 'col_web_shear_k', col(st), bt, z), lambda st: t.div(t.mul(n(Fraction('0.38')), Avc), t.mul(bt, z)))
    c('beam_web_compression', lambda st: k.f(st, CM, 'beam_web_compression', k.fake(st, E8, 'Bolt', 'beam', MRd=MRd, h=h, tf=tfb)),
      lambda st: t.div(MRd, t.sub(h, tfb)))
    c('beam_web_tension', lambda st: k.f(st, CM, 'beam_web_tension', col(st), leff), lambda st: t.div(t.mul(t.mul(leff, twc), fy), g0))
    c('Tstub_compression_flange', lambda st: k.f(st, CM, 'Tstub_compression_flange', F1, beff, leff), lambda st: t.mul(t.mul(F1, beff), leff))
    c('col_web_trv_comp_k', lambda st: k.f(st, CM, 'col_web_trv_comp_k', col(st), beff), lambda st: t.div(t.mul(t.mul(n(Fraction('0.7')), beff), twc), k.s('dwc')))
    c('column_web_tension_k', lambda st: k.f(st, CM, 'column_web_tension_k', col(st), beff), lambda st: t.div(t.mul(t.mul(n(Fraction('0.7')), beff), twc), k.s('dwc')))
    c('column_flange_bending_k', lambda st: k.f(st, CM, 'column_flange_bending_k', col(st), leff, m),
      lambda st: t.mul(t.mul(n(Fraction('0.9')), leff), t.power(t.div(tfc, m), Fraction(3))))
    c('end_plate_bending_k', lambda st: k.f(st, CM, 'end_plate_bending_k', tp, leff, m),
      lambda st: t.mul(t.mul(n(Fraction('0.9')), leff), t.power(t.div(tp, m), Fraction(3))))
    c('bolt_row_tension_k', lambda st: k.f(st, CM, 'bolt_row_tension_k', As, Lb), lambda st: t.div(t.mul(n(Fraction('1.6')), As), Lb))
    ee, mm, mm2 = k.ss('e m m2')
    f('new_alpha', [ee, mm, mm2], 'alpha_new', [ee, mm, mm2], mod=CM)
    for kind in RANGES:
        c('column_web_tension.' + kind, lambda st: k.f(st, CM, 'column_web_tension', col(st), leff, bt),
          lambda st: k.sp(st, 'web_tension', leff, twc, fy, Avc, bt, g0), ctx=betas(kind))
    compression(r)
    stiffened(r)
    tstubs(r)
    rows(r)
    joint(r)


def start(r):
    k = Kit(r, 'joints', hints=HINTS)
    gs = k.ss('gammaM0 gammaM1 gammaM2')
    for nm, v in zip(('gammaM0', 'gammaM1', 'gammaM2'), gs):
        k.it.overrides[(CON, nm)] = v
    return k, gs


def column(k, st, **kw):
    a = dict(h=k.s('hc'), b=k.s('bc'), tf=k.s('tfc'), tw=k.s('twc'), r=k.s('rc'), fy=k.s('fy'), E=k.s('E'), eps=k.s('eps'), hw=k.s('dwc'))
    a.update(kw)
    return k.fake(st, E8, 'Bolt', 'column', Ashear=k.lst(st, k.s('Avy'), k.s('Avc')), **a)


def compression(r):
    """Column web in transverse compression."""
    # the governing case of each minimum is fixed by the branch: overhang, slenderness and stress below or above their limits
    for v, tag, wide, loaded in ((Fraction(1, 3), 'low', True, True), (Fraction(1), 'one', False, False), (Fraction(2), 'two', True, False)):
        k, (g0, g1, g2) = start(r)
        n = k.n
        tfc, twc, rc, fy, E, Avc, tp, tfb, ap, eb = k.ss('tfc twc rc fy E Avc tp tfb ap eb')
        sig = k.s('sig', '?')

        def c(name, code, want, ctx):
            k.eq('component.' + name, (CM, name.split('.')[0]), RULE, code, want, ctx=ctx, assume=True)
        q = n(Fraction('0.7'))
        spread = t.sub(t.add(tp, eb), t.mul(t.power(n(2), Fraction(1, 2)), ap))

        def comp(st, v=v, given=True):
            args = [column(k, st), k.fake(st, E8, 'Bolt', 'beam', tf=tfb), tp, eb, ap, n(v)] + ([sig] if given else [])
            return st, k.lst(st, *k.items(st, k.f(st, CM, 'col_web_trv_comp', *args)))

        def comp_want(st, v=v, s=sig):
            be = k.sp(st, 'web_compression_width', tfb, ap, tfc, rc, tp, eb)
            return st, k.lst(st, k.sp(st, 'web_compression', be, k.s('dwc'), twc, fy, E, Avc, n(v), s, g0, g1), be)
        ctx = t.Ctx().with_sign(t.sub(spread, t.mul(n(2), tp)), 1 if wide else -1).with_sign(t.sub(sig, t.mul(q, fy)), 1 if loaded else -1)
        c('col_web_trv_comp.' + tag, comp, comp_want, ctx)
        if tag == 'one':
            c('col_web_trv_comp.unloaded', lambda st: comp(st, Fraction(1, 3), False), lambda st: comp_want(st, Fraction(1, 3), t.ZERO), ctx)


def stiffened(r):
    """Column web with a transverse stiffener on the compression side."""
    k, (g0, g1, g2) = start(r)
    n = k.n
    twc, eps = k.ss('twc eps')
    bs, ts, hs, fys = k.ss('bs ts hs fys')
    # a slenderness given as such: the depth of the stiffener follows from it
    A = t.add(t.mul(t.add(plus(t.mul(t.mul(n(30), eps), twc)), ts), twc), t.mul(n(2), t.mul(bs, ts)))
    Is = t.div(t.mul(t.power(t.add(t.mul(n(2), bs), twc), Fraction(3)), ts), n(12))
    lam = t.div(hs, t.mul(t.power(t.div(Is, A), Fraction(1, 2)), t.mul(n(Fraction('93.9')), eps)))
    for tag, sg in (('slender', 1), ('stocky', -2)):
        k.eq('component.col_web_trv_comp_stiffened.' + tag, (CM, 'col_web_trv_comp_stiffened'), RULE,
             lambda st: k.f(st, CM, 'col_web_trv_comp_stiffened', column(k, st), plate(k, st, bs, hs, ts, fys)),
             lambda st: k.sp(st, 'stiffened_web', eps, twc, bs, ts, hs, fys, g0, g1), ctx=t.Ctx().with_sign(t.sub(lam, n(Fraction('0.2'))), sg), assume=True)


def plate(k, st, b, h, t_, fy):
    p = k.new(st, 'metku.structures.steel.plates', 'RectPlate', b, h, t_)
    k.raw(st, k.get(st, p, 'material'), 'fy', fy)
    return p


def plus(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = t.apply(t.add, out, x)
    return out


def const(k, name):
    return k.it.mod_lookup(E8, name)


def tstubs(r):
    """Effective lengths and failure modes on distances given as such."""
    k = Kit(r, 'joints', hints=HINTS)
    n = k.n
    g0, g1, g2 = k.ss('gammaM0 gammaM1 gammaM2')
    for nm, v in (('gammaM0', g0), ('gammaM1', g1), ('gammaM2', g2)):
        k.it.overrides[(CON, nm)] = v
    m, m2, e, e1, ex, w, bp, p, tf, fy, fub, As, emin = k.ss('m m2 e e1 ex w bp p tf fy fub As emin')

    def alpha(it, st, args, kw):
        return t.fn('alpha', list(args)) if False else t.mul(t.sym('alpha0', '+'), t.add(t.mul(n(3), args[0]), args[1]))
    k.it.func_overrides[(CM, 'find_alpha')] = alpha
    l1, l2 = t.div(m, t.add(m, e)), t.div(m2, t.add(m, e))
    a_col = t.mul(t.sym('alpha0', '+'), t.add(t.mul(n(3), l1), l2))
    CF = {'inner': ('INNER_ROW', 'OTHER_INNER_ROW'), 'end': ('END_ROW', 'OTHER_END_ROW'), 'adjacent': ('ADJACENT_TO_STIFFENER_ROW',),
          'end-adjacent': ('END_ROW_ADJACENT_TO_STIFFENER',)}
    PL = {'outside': ('ROW_OUTSIDE_BEAM_TENSION_FLANGE',), 'first': ('FIRST_ROW_BELOW_BEAM_TENSION_FLANGE',), 'inner': ('OTHER_INNER_ROW',), 'end': ('OTHER_END_ROW',)}

    def stub(st, cls, loc, count=2, e=e, emin=emin):
        b = k.fake(st, E8, 'Bolt', 'bolt', fub=fub, As=As)
        j = k.fake(st, E8, 'Bolt', 'joint', tp=tf, bp=bp, col=k.fake(st, E8, 'Bolt', 'column', tf=tf))
        row = k.fake(st, E8, 'Bolt', 'row', loc_col_flange=loc, loc_end_plate=loc, col_flange_m=m, col_flange_e=e, emin_flange=emin,
                     top_flange_stiffener_m2=m2, end_plate_m=m, end_plate_m2=m2, end_plate_e=e, ex=ex, w=w, joint=j, bolt=b, bolts=n(count))
        mat = k.fake(st, E8, 'Bolt', 'mat', fy=fy)
        if cls == 'TStubColumnFlange':
            return k.new(st, E8, cls, row, mat, n(10), n(20), n(20), n(10), e1, p)
        return k.new(st, E8, cls, row, mat, n(10), n(20), n(10), n(20), n(20), n(100), p)

    def single(cls, const_, nm):
        def go(st):
            s = stub(st, cls, const(k, const_))
            return st, k.lst(st, *[k.get(st, s, x) for x in ('leff_cp', 'leff_nc', 'leff_1', 'leff_2', 'n')])
        return go

    def single_want(cls, nm):
        def go(st):
            a = a_col
            if cls == 'TStubColumnFlange':
                cp, nc = k.items(st, k.sp(st, 'column_row', nm, m, e, e1, a))
                em = emin
            else:
                cp, nc = k.items(st, k.sp(st, 'plate_row', nm, m, e, ex, w, bp, k.sp(st, 'alpha_new', e, m, m2)))
                em = ex if nm == 'outside' else e
            q1, q2 = k.items(st, k.sp(st, 'pair', cp, nc))
            return st, k.lst(st, cp, nc, q1, q2, t.min_([em, t.mul(n(Fraction('1.25')), m)]))
        return go

    def grouped(cls, const_, given):
        def go(st):
            s = stub(st, cls, 'elsewhere')
            args = [const(k, const_)] if given else []
            if not given:
                row = k.get(st, s, 'bolts')
                k.raw(st, row, 'group_loc_flange', const(k, const_))
                k.raw(st, row, 'group_loc_plate', const(k, const_))
            return st, k.lst(st, k.call(st, s, 'leff_cp_as_group', *args), k.call(st, s, 'leff_nc_as_group', *args))
        return go
    for cls, places in (('TStubColumnFlange', CF), ('TStubEndPlate', PL)):
        for nm, consts in places.items():
            for cn in consts:
                k.eq('leff.%s.%s' % (cls, cn), (E8, cls + '.leff_nc'), RULE, single(cls, cn, nm), single_want(cls, nm))
                if nm in ('end-adjacent', 'outside'):
                    continue

                def want(st, cls=cls, nm=nm):
                    if cls == 'TStubColumnFlange':
                        return k.sp(st, 'column_group', nm, m, e, e1, p, a_col)
                    return k.sp(st, 'plate_group', nm, m, e, p, k.sp(st, 'alpha_new', e, m, m2))
                for given in (True, False):
                    k.eq('leff.group.%s.%s.%s' % (cls, cn, 'given' if given else 'own'), (E8, cls + '.leff_nc_as_group'), RULE, grouped(cls, cn, given), want)

    # failure modes
    def modes(count):
        def go(st):
            s = stub(st, 'TStubColumnFlange', const(k, 'INNER_ROW'), count)
            return st, k.lst(st, *[k.call(st, s, x) for x in ('F_T_1_Rd', 'F_T_2_Rd', 'F_T_3_Rd', 'F_T_12_Rd')])
        return go

    def modes_list(st, count):
        cp, nc = k.items(st, k.sp(st, 'column_row', 'inner', m, e, e1, a_col))
        q1, q2 = k.items(st, k.sp(st, 'pair', cp, nc))
        Ft = t.mul(n(count), k.sp(st, 'bolt_tension', fub, As, n(Fraction('0.9')), g2))
        return k.items(st, k.sp(st, 'tstub', q1, q2, tf, fy, m, t.min_([emin, t.mul(n(Fraction('1.25')), m)]), Ft, g0)), q1
    for count in (2, 4):
        def want(st, count=count):
            ms, q1 = modes_list(st, count)
            return st, k.lst(st, *ms, t.apply(lambda x: t.div(x, n(2)), ms[0]))
        k.eq('modes.%d' % count, (E8, 'TStub.F_T_2_Rd'), RULE, modes(count), want)

    def resistance(st):
        return st, k.call(st, stub(st, 'TStubColumnFlange', const(k, 'INNER_ROW'), 2, wide, far), 'FT_Rd')
    # wide flange: circular patterns are shorter, and the edge distance does not limit n
    wide, far = t.add(t.mul(n(2), m), k.s('y')), t.add(t.mul(n(Fraction('1.25')), m), k.s('x'))
    half = t.mul(n(Fraction('1.25')), m)
    Ft = t.div(plus(*[t.mul(n(Fraction('0.9')), t.mul(fub, As))] * 2), g2)
    Mp = t.div(t.mul(t.mul(t.mul(n(Fraction(1, 4)), t.power(tf, Fraction(2))), fy), n(1)), g0)
    M1 = t.div(t.mul(t.mul(n(4), t.mul(t.mul(n(2), t.PI()), m)), Mp), m)
    M2 = t.div(t.add(t.mul(n(2), t.mul(t.add(t.mul(n(4), m), t.mul(n(Fraction('1.25')), wide)), Mp)), t.mul(half, Ft)), t.add(m, half))
    for i, order in enumerate(([M1, M2, Ft], [M2, M1, Ft], [Ft, M2, M1])):
        ctx = t.Ctx()
        for x, y in ((order[0], order[1]), (order[0], order[2]), (order[1], order[2])):
            ctx = ctx.with_sign(t.sub(y, x), 1).with_sign(t.sub(x, y), -1)
        k.eq('resistance.%d' % i, (E8, 'TStub.FT_Rd'), RULE, resistance, lambda st, v=order[0]: (st, v), ctx=ctx, assume=True)

    # three rows in a group
    def group(st, kinds, part):
        locs = [{'flange': const(k, a), 'plate': const(k, b)} for a, b in kinds]
        zs = [k.s('z%d' % i) for i in range(len(kinds))]
        b = k.fake(st, E8, 'Bolt', 'bolt', fub=fub, As=As)
        j = k.fake(st, E8, 'Bolt', 'joint', tp=tf, bp=bp, col=k.fake(st, E8, 'Bolt', 'column', tf=tf))
        rows_ = []
        mat = k.fake(st, E8, 'Bolt', 'mat', fy=fy)
        for i, z in enumerate(zs):
            row = k.fake(st, E8, 'Bolt', 'row%d' % i, z=z, loc_col_flange='x', loc_end_plate='x', col_flange_m=m, col_flange_e=e, emin_flange=emin,
                         top_flange_stiffener_m2=m2, end_plate_m=m, end_plate_m2=m2, end_plate_e=e, ex=ex, w=w, joint=j, bolt=b, bolts=n(2), groups=k.lst(st))
            k.raw(st, row, 'Tstub_col_flange', k.new(st, E8, 'TStubColumnFlange', row, mat, n(10), n(20), n(20), n(10), e1))
            k.raw(st, row, 'Tstub_end_plate', k.new(st, E8, 'TStubEndPlate', row, mat, n(10), n(20), n(10), n(20), n(20), n(100)))
            rows_.append(row)
        g = k.new(st, E8, 'BoltRowGroup', k.lst(st, *rows_), k.lst(st, *[k.dct(st, x) for x in locs]))
        return g, k.get(st, g, part), rows_
    FL, PLT = 'Tstub_col_flange', 'Tstub_end_plate'
    LAYOUT = {'three': [('END_ROW', 'FIRST_ROW_BELOW_BEAM_TENSION_FLANGE'), ('INNER_ROW', 'OTHER_INNER_ROW'), ('END_ROW', 'OTHER_END_ROW')],
              'two': [('END_ROW', 'OTHER_END_ROW'), ('END_ROW', 'OTHER_END_ROW')],
              'stiffened': [('ADJACENT_TO_STIFFENER_ROW', 'FIRST_ROW_BELOW_BEAM_TENSION_FLANGE'), ('OTHER_INNER_ROW', 'OTHER_INNER_ROW'), ('OTHER_END_ROW', 'OTHER_END_ROW')]}
    KINDS = {'END_ROW': 'end', 'INNER_ROW': 'inner', 'OTHER_INNER_ROW': 'inner', 'OTHER_END_ROW': 'end', 'ADJACENT_TO_STIFFENER_ROW': 'adjacent',
             'FIRST_ROW_BELOW_BEAM_TENSION_FLANGE': 'first'}

    def parts(st, lay, part):
        """(circular, other) of each row of the group, from the distances between rows."""
        zs = [k.s('z%d' % i) for i in range(len(lay))]
        gap = [t.sub(zs[i], zs[i + 1]) for i in range(len(zs) - 1)]
        out = []
        for i, (a, b) in enumerate(lay):
            near = [gap[j] for j in (i - 1, i) if 0 <= j < len(gap)]
            pp = near[0] if len(near) == 1 else t.div(t.add(*near), n(2))
            if part == FL:
                out.append(k.items(st, k.sp(st, 'column_group', KINDS[a], m, e, e1, pp, a_col)))
            else:
                out.append(k.items(st, k.sp(st, 'plate_group', KINDS[b], m, e, pp, k.sp(st, 'alpha_new', e, m, m2))))
        return out

    for lay, kinds in LAYOUT.items():
        for part in (FL, PLT):
            tn = 'TStubGroupColumnFlange' if part == FL else 'TStubGroupEndPlate'

            def circ(st, kinds=kinds, part=part):
                return st, k.get(st, group(st, kinds, part)[1], 'leff_cp')

            def other(st, kinds=kinds, part=part):
                return st, k.get(st, group(st, kinds, part)[1], 'leff_nc')
            k.eq('group.%s.%s.cp' % (lay, part), (E8, tn + '.leff_cp'), RULE, circ, lambda st, kinds=kinds, part=part: (st, plus(*[x[0] for x in parts(st, kinds, part)])))
            k.eq('group.%s.%s.nc' % (lay, part), (E8, tn + '.leff_nc'), RULE, other, lambda st, kinds=kinds, part=part: (st, plus(*[x[1] for x in parts(st, kinds, part)])))
            for i in range(len(kinds)):
                def row_part(st, kinds=kinds, part=part, i=i):
                    g, s, rs = group(st, kinds, part)
                    return st, k.lst(st, k.call(st, s, 'leff_cp_row', rs[i]), k.call(st, s, 'leff_nc_row', rs[i]))
                k.eq('group.%s.%s.row%d' % (lay, part, i), (E8, tn + '.leff_nc_row'), RULE, row_part,
                     lambda st, kinds=kinds, part=part, i=i: (st, k.lst(st, *parts(st, kinds, part)[i])))

            def group_modes(st, kinds=kinds, part=part):
                s = group(st, kinds, part)[1]
                k.raw(st, s, '_given', t.ZERO)
                return st, k.call(st, s, 'F_T_3_Rd')
            k.eq('group.%s.%s.bolts' % (lay, part), (E8, 'TStubGroup.F_T_3_Rd'), RULE, group_modes,
                 lambda st, kinds=kinds: (st, t.mul(n(2 * len(kinds)), k.sp(st, 'bolt_tension', fub, As, n(Fraction('0.9')), g2))))

    # failure modes of a group, plate of inner rows only
    simple = [('INNER_ROW', 'OTHER_END_ROW'), ('INNER_ROW', 'OTHER_INNER_ROW'), ('INNER_ROW', 'OTHER_END_ROW')]

    def plate_modes(st):
        s = group(st, simple, PLT)[1]
        return st, k.lst(st, k.call(st, s, 'F_T_1_Rd'), k.call(st, s, 'F_T_2_Rd'))

    def plate_want(st):
        ps = parts(st, simple, PLT)
        q1, q2 = k.items(st, k.sp(st, 'pair', plus(*[x[0] for x in ps]), plus(*[x[1] for x in ps])))
        Ft = t.mul(n(6), k.sp(st, 'bolt_tension', fub, As, n(Fraction('0.9')), g2))
        return st, k.lst(st, *k.items(st, k.sp(st, 'tstub', q1, q2, tf, fy, m, t.min_([e, t.mul(n(Fraction('1.25')), m)]), Ft, g0))[:2])
    k.eq('group.modes', (E8, 'TStubGroup.F_T_2_Rd'), RULE, plate_modes, plate_want)


ROW_BOLT = dict(size=20, washer_t='wt', head_t='ht', nut_t='nt')


def rows(r):
    """Distances, stiffness and resistance of bolt rows."""
    k, (g0, g1, g2) = start(r)
    n = k.n
    z, eb, p, tp, etop, hb, tfb, twb, tfc, twc, rc, af, aw, ts, a_s, x, As, fub = k.ss('z eb p tp etop hb tfb twb tfc twc rc af aw ts as x As fub')

    def parts(st, narrow=True, stiff=False, **kw):
        """A joint of symbolic dimensions; the plate is narrower or wider than the column by x."""
        a = kw.get('size', k.s('bb'))
        dx = n(20) if 'size' in kw else x
        bp, bc = (a, t.add(a, dx)) if narrow else (t.add(a, dx), a)
        mat = k.fake(st, E8, 'Bolt', 'mat', fy=k.s('fy'))
        colm = column(k, st, b=bc, material=mat, **kw.get('col', {}))
        beam = k.fake(st, E8, 'Bolt', 'beam', h=hb, tf=tfb, tw=twb, fy=k.s('fyb'))
        b = k.fake(st, E8, 'Bolt', 'bolt', washer_t=k.s('wt'), head_t=k.s('ht'), nut_t=k.s('nt'), As=As, fub=fub, d=n(20))
        stf = k.dct(st, {'col_top_flange': k.fake(st, E8, 'Bolt', 'stiffener', t=ts, weld_size=a_s) if stiff else None})
        j = k.fake(st, E8, 'Bolt', 'joint', col=colm, beam=beam, bp=bp, tp=tp, p=kw.get('p', p), ebolts=kw.get('eb', eb), etop=etop, weld_f=af, weld_w=kw.get('aw', aw),
                   beta=kw.get('beta', n(1)), end_plate=k.fake(st, E8, 'Bolt', 'plate', material=k.fake(st, E8, 'Bolt', 'matp', fy=k.s('fyp'))),
                   stiffeners=stf, zc=t.neg(t.div(t.sub(hb, tfb), n(2))))
        return j, b, bp, bc

    def row(st, j, b, where, flange='INNER_ROW', plate_='OTHER_INNER_ROW'):
        return k.new(st, E8, 'BoltRow', b, k.get(st, j, 'p'), where, const(k, flange), const(k, plate_), j)
    NAMES = ['emin_flange', 'col_flange_e', 'ex', 'mx', 'w', 'col_flange_m', 'end_plate_m', 'end_plate_m2', 'end_plate_e', 'top_flange_stiffener_m2', 'h']
    for narrow in (True, False):
        for out in (True, False):
            height = t.add(t.div(hb, n(2)), z) if out else t.sub(t.div(hb, n(2)), z)

            def places(st, narrow=narrow, out=out, height=height):
                j, b, bp, bc = parts(st, narrow, True)
                o = row(st, j, b, height, 'ADJACENT_TO_STIFFENER_ROW', 'ROW_OUTSIDE_BEAM_TENSION_FLANGE' if out else 'FIRST_ROW_BELOW_BEAM_TENSION_FLANGE')
                sc, se = k.get(st, o, 'Tstub_col_flange'), k.get(st, o, 'Tstub_end_plate')
                return st, k.lst(st, k.lst(st, *[k.get(st, o, q) for q in NAMES]), k.lst(st, *[k.get(st, sc, q) for q in ('tf', 'emin', 'm', 'm2', 'e')]),
                                 k.lst(st, *[k.get(st, se, q) for q in ('tf', 'emin', 'm', 'm2', 'e', 'w', 'bp')]), k.get(st, o, 'Lb'), k.get(st, o, 'z_top'))

            def places_want(st, narrow=narrow, out=out, height=height):
                j, b, bp, bc = parts(st, narrow, True)
                v = k.items(st, k.sp(st, 'row_places', height, eb, p, bp, tp, etop, hb, tfb, twb, bc, tfc, twc, rc, af, aw, out, ts, a_s))
                d = dict(zip(NAMES, v))
                return st, k.lst(st, k.lst(st, *v), k.lst(st, tfc, d['emin_flange'], d['col_flange_m'], d['top_flange_stiffener_m2'], d['col_flange_e']),
                                 k.lst(st, tp, d['ex'] if out else eb, d['end_plate_m'], d['end_plate_m2'], eb, p, bp),
                                 k.sp(st, 'strain_length', tp, tfc, k.s('wt'), k.s('ht'), k.s('nt')), d['ex'])
            k.eq('row.places.%s.%s' % ('narrow' if narrow else 'wide', 'outside' if out else 'inside'), (E8, 'BoltRow.__init__'), RULE, places, places_want)

    def moved(st):
        j, b, bp, bc = parts(st)
        o = row(st, j, b, z)
        k.set(st, o, 'z_top', x)
        return st, k.lst(st, k.get(st, o, 'z'), k.get(st, o, 'z_top'), k.get(st, o, 'ex'), k.get(st, o, 'h'))

    def moved_want(st):
        new = t.sub(t.add(t.div(hb, n(2)), etop), x)
        return st, k.lst(st, new, x, x, t.add(new, t.div(t.sub(hb, tfb), n(2))))
    k.eq('row.moved', (E8, 'BoltRow.z_top'), RULE, moved, moved_want)

    # stiffness: the shortest effective length, alone or in any group
    def three(st, groups, m, e1, zs):
        j, b, bp, bc = parts(st, p=t.add(t.mul(n(2), m), t.add(twc, t.mul(n(Fraction('1.6')), rc))), aw=t.ZERO, size=n(150), eb=n(40))
        k.raw(st, k.get(st, j, 'beam'), 'tw', t.add(twc, t.mul(n(Fraction('1.6')), rc)))
        rs = [row(st, j, b, q, 'INNER_ROW' if i == 1 else 'END_ROW', 'OTHER_INNER_ROW' if i == 1 else 'OTHER_END_ROW') for i, q in enumerate(zs)]
        for o in rs:
            k.raw(st, k.get(st, o, 'Tstub_col_flange'), 'e1', e1)
        for g in groups:
            loc = [k.dct(st, {'flange': const(k, 'END_ROW' if i in (g[0], g[-1]) else 'INNER_ROW'),
                              'plate': const(k, 'OTHER_END_ROW' if i in (g[0], g[-1]) else 'OTHER_INNER_ROW')}) for i in g]
            k.new(st, E8, 'BoltRowGroup', k.lst(st, *[rs[i] for i in g]), k.lst(st, *loc))
        return rs, j, bp, bc

    def lengths(st, i, groups, m, e1, zs):
        """Shortest effective lengths of row i on the column and on the plate."""
        ec, eb, p, bp = n(50), n(40), t.ZERO, n(150)
        c_ = k.items(st, k.sp(st, 'column_row', 'inner' if i == 1 else 'end', m, ec, e1, n(1)))
        p_ = k.items(st, k.sp(st, 'plate_row', 'inner' if i == 1 else 'end', m, eb, eb, p, bp, n(1)))
        for g in groups:
            if i not in g:
                continue
            gaps = [t.sub(zs[a], zs[b]) for a, b in zip(g, g[1:])]
            at = g.index(i)
            near = [gaps[q] for q in (at - 1, at) if 0 <= q < len(gaps)]
            pp = near[0] if len(near) == 1 else t.div(t.add(*near), n(2))
            kind = 'inner' if 0 < at < len(g) - 1 else 'end'
            c_ += k.items(st, k.sp(st, 'column_group', kind, m, ec, e1, pp, n(1)))
            p_ += k.items(st, k.sp(st, 'plate_group', kind, m, eb, pp, n(1)))
        return t.min_(c_), t.min_(p_)
    # pitches and end distances such that each pattern governs somewhere: (m, e1, distance of rows 0 and 1, of rows 1 and 2)
    for case, (mv, e1v, gap1, gap2) in enumerate(((40, 300, 90, 70), (40, 300, 400, 600), (30, 25, 60, 200), (30, 60, 500, 90), (15, 300, 110, 80))):
        zs = [n(gap1 + gap2), n(gap2), n(0)]
        for gs in ([], [[0, 1]], [[0, 1, 2]], [[0, 1], [1, 2], [0, 1, 2]], [[1, 2]]):
            for i in range(3):
                def stiff(st, gs=gs, i=i, mv=n(mv), e1v=n(e1v), zs=zs):
                    rs, j, bp, bc = three(st, gs, mv, e1v, zs)
                    return st, k.lst(st, *[k.call(st, rs[i], q) for q in ('k3', 'k4', 'k5', 'k10')])

                def stiff_want(st, gs=gs, i=i, mv=n(mv), e1v=n(e1v), zs=zs):
                    c_, p_ = lengths(st, i, gs, mv, e1v, zs)
                    return st, k.sp(st, 'row_stiffness', c_, p_, mv, mv, twc, k.s('dwc'), tfc, tp, As, k.sp(st, 'strain_length', tp, tfc, k.s('wt'), k.s('ht'), k.s('nt')))
                k.eq('row.stiffness.%d.%s.%d' % (case, '-'.join(''.join(map(str, g)) for g in gs) or 'alone', i), (E8, 'BoltRow.k4'), RULE, stiff, stiff_want)

    ks = k.ss('k3 k4 k5 k10')
    for nm, v in zip(('k3', 'k4', 'k5', 'k10'), ks):
        k.it.func_overrides[(E8, 'BoltRow.' + nm)] = lambda it, st, a, kw, v=v: v

    def series(st):
        j, b, bp, bc = parts(st)
        return st, k.call(st, row(st, j, b, z), 'keff')
    k.eq('row.keff', (E8, 'BoltRow.keff'), RULE, series, lambda st: (st, k.sp(st, 'series', k.lst(st, *ks))))
    for nm in ('k3', 'k4', 'k5', 'k10'):
        del k.it.func_overrides[(E8, 'BoltRow.' + nm)]

    # the weakest component governs
    F = k.s('F')
    more = [t.add(F, v) for v in k.ss('d1 d2 d3')]
    COMP = ('column_flange_in_bending', 'end_plate_in_bending', 'column_web_in_tension', 'beam_web_in_tension')
    for cls in ('BoltRow', 'BoltRowGroup'):
        for i, nm in enumerate(COMP):
            vals = list(more)
            vals.insert(i, F)
            for c_, v in zip(COMP, vals):
                k.it.func_overrides[(E8, cls + '.' + c_)] = lambda it, st, a, kw, v=v: v

            def weakest(st, cls=cls):
                j, b, bp, bc = parts(st)
                rs = [row(st, j, b, q) for q in (k.s('z1'), k.s('z2'))]
                o = rs[0] if cls == 'BoltRow' else k.new(st, E8, cls, k.lst(st, *rs), k.lst(st, *[k.dct(st, {'flange': const(k, 'END_ROW'), 'plate': const(k, 'OTHER_END_ROW')})] * 2))
                v = k.call(st, o, 'tension_resistance')
                return st, k.lst(st, v, k.get(st, o, 'FtRd'))
            k.eq('%s.resistance.%s' % (cls, nm), (E8, cls + '.tension_resistance'), RULE, weakest, lambda st: (st, k.lst(st, F, F)))
    # groups across the beam flange or a stiffener
    vals = k.ss('Gcf Gep Gcw Gbw')
    for c_, v in zip(COMP, vals):
        k.it.func_overrides[(E8, 'BoltRowGroup.' + c_)] = lambda it, st, a, kw, v=v: v
    for tag, fl, pl, want in (('beam-flange', 'END_ROW', 'ROW_OUTSIDE_BEAM_TENSION_FLANGE', (0, 2)),
                              ('stiffener', 'END_ROW_ADJACENT_TO_STIFFENER', 'OTHER_END_ROW', (1, 3))):
        def across(st, fl=fl, pl=pl):
            j, b, bp, bc = parts(st)
            rs = [row(st, j, b, q) for q in (k.s('z1'), k.s('z2'))]
            loc = [k.dct(st, {'flange': const(k, fl), 'plate': const(k, pl)}), k.dct(st, {'flange': const(k, 'END_ROW'), 'plate': const(k, 'OTHER_END_ROW')})]
            return st, k.call(st, k.new(st, E8, 'BoltRowGroup', k.lst(st, *rs), k.lst(st, *loc)), 'tension_resistance')
        k.eq('group.across.' + tag, (E8, 'BoltRowGroup.tension_resistance'), RULE, across, lambda st, w=want: (st, t.min_([vals[i] for i in w])))
    for cls in ('BoltRow', 'BoltRowGroup'):
        for c_ in COMP:
            del k.it.func_overrides[(E8, cls + '.' + c_)]


def joint(r):
    """Moment resistance and stiffness of the whole joint."""
    k, (g0, g1, g2) = start(r)
    n = k.n
    hb, tfb, twb, bc, tfc, twc, rc, hc, dwc, Avc, fy, E, eps, beta = k.ss('hb tfb twb bc tfc twc rc hc dwc Avc fy E eps beta')
    etop, ebot, bp, tp, eb = k.ss('etop ebot bp tp eb')
    zs = k.ss('z0 z1 z2 z3')
    stress = k.it.func('spec.joints', 'some_stress')
    half = t.div(t.sub(hb, tfb), n(2))

    def make(st, count, groups=(), types=None, b=beta, defaults=False):
        mat = k.new(st, 'metku.materials.steel_data', 'Steel', 'S355')
        colm = column(k, st, b=bc, material=mat, sigma_com=stress)
        for q in ('Med', 'Ved'):
            k.raw(st, colm, q, k.nd(st, (2,), [n(0), n(0)]))
        beam = k.fake(st, E8, 'Bolt', 'beam', h=hb, tf=tfb, tw=twb, fy=k.s('fyb'), MRd=k.s('MbRd'), Med=k.nd(st, (2,), [n(0), n(0)]), Ved=k.nd(st, (2,), [n(0), n(0)]))
        bolt_ = k.new(st, E8, 'Bolt', n(20), n(Fraction('8.8')), n(50))
        pos = k.lst(st, *[k.dct(st, {'flange': const(k, 'INNER_ROW'), 'plate': const(k, 'OTHER_INNER_ROW')}) for _ in range(count)])
        gp = [k.lst(st, *[k.dct(st, {'flange': const(k, 'END_ROW'), 'plate': const(k, 'OTHER_END_ROW')}) for _ in g]) for g in groups]
        args = [colm, beam, tp, bp, 'S355', etop, ebot, bolt_, k.lst(st, *zs[:count]), eb, pos]
        kw = {}
        if not defaults:
            kw = dict(groups=k.lst(st, *[k.lst(st, *[n(q) for q in g]) for g in groups]), group_pos=k.lst(st, *gp),
                      row_types=k.lst(st, *[const(k, q) for q in (types or ['TENSION_ROW'] * count)]))
        j = k.new(st, EP, 'EndPlateJoint', *args, **kw)
        if b is not None:
            k.set(st, j, 'beta', b)
        return j

    def q(key, fn, code, want, ctx=None):
        k.eq('joint.' + key, (EP, 'EndPlateJoint.' + fn), RULE, code, want, ctx=ctx, assume=ctx is not None)

    def stiffen(st, j, where, thick):
        k.call(st, j, 'add_stiffener', where, t=thick)
        return j
    tt, tb = k.ss('tt tb')

    # ---------------------------------------- column side
    q('shear', 'V_wp_Rd', lambda st: (st, k.call(st, make(st, 1), 'V_wp_Rd')), lambda st: k.sp(st, 'web_shear', fy, Avc, g0))
    q('shear.one-stiffener', 'V_wp_Rd', lambda st: (st, k.call(st, stiffen(st, make(st, 1), 'col_bottom_flange', tb), 'V_wp_Rd')), lambda st: k.sp(st, 'web_shear', fy, Avc, g0))

    def both(st):
        j = make(st, 2)
        for v, nm in ((tb, 'col_bottom_flange'), (tt, 'col_top_flange')):
            stiffen(st, j, nm, v)
        return st, k.call(st, j, 'V_wp_Rd')

    def both_want(st):
        fp = n(355)
        return st, t.apply(t.add, k.sp(st, 'web_shear', fy, Avc, g0), k.sp(st, 'panel_extra', bc, tfc, fy, t.mul(n(2), half), tt, fp, tb, fp, g0))
    above = t.Ctx().with_sign(t.sub(zs[0], t.div(hb, n(2))), -1)
    q('shear.stiffened', 'V_wp_Rd', both, both_want, above)
    q('stiffness.column', 'k1', lambda st: (st, k.call(st, make(st, 1), 'k1', k.s('arm'))), lambda st: t.div(t.mul(n(Fraction('0.38')), Avc), t.mul(beta, k.s('arm'))))

    def width(st):
        return k.sp(st, 'web_compression_width', tfb, n(5), tfc, rc, tp, ebot)

    def k2(st):
        j = make(st, 1)
        return st, k.lst(st, k.call(st, j, 'beff_c_wc'), k.call(st, j, 'k2'))

    def k2_want(st):
        w = width(st)
        return st, k.lst(st, w, t.apply(lambda v: t.div(t.mul(t.mul(n(Fraction('0.7')), v), twc), dwc), w))
    q('stiffness.compression', 'k2', k2, k2_want)
    spread = t.sub(t.add(tp, ebot), t.mul(t.power(n(2), Fraction(1, 2)), n(5)))
    plain = t.Ctx().with_sign(t.sub(spread, t.mul(n(2), tp)), 1).with_sign(t.sub(n(17), t.mul(n(Fraction('0.7')), fy)), -1)
    q('compression', 'Fc_wc_Rd', lambda st: (st, k.call(st, make(st, 1, b=n(Fraction(1, 3))), 'Fc_wc_Rd')),
      lambda st: (st, k.sp(st, 'web_compression', width(st), dwc, twc, fy, E, Avc, n(Fraction(1, 3)), n(17), g0, g1)), plain)
    hot = t.Ctx().with_sign(t.sub(spread, t.mul(n(2), tp)), 1).with_sign(t.sub(n(17), t.mul(n(Fraction('0.7')), fy)), 1)
    q('compression.stressed', 'Fc_wc_Rd', lambda st: (st, k.call(st, make(st, 1, b=n(Fraction(1, 3))), 'Fc_wc_Rd')),
      lambda st: (st, k.sp(st, 'web_compression', width(st), dwc, twc, fy, E, Avc, n(Fraction(1, 3)), n(17), g0, g1)), hot)
    # (a stocky stiffener: its slenderness is below 0.2)
    bs, hs = t.div(t.sub(bc, twc), n(2)), t.sub(hc, t.mul(n(2), tfc))
    A = t.add(t.mul(t.add(t.mul(t.mul(n(30), eps), twc), tb), twc), t.mul(n(2), t.mul(bs, tb)))
    Is = t.div(t.mul(t.power(t.add(t.mul(n(2), bs), twc), Fraction(3)), tb), n(12))
    lam = t.div(hs, t.mul(t.power(t.div(Is, A), Fraction(1, 2)), t.mul(n(Fraction('93.9')), eps)))
    q('compression.stiffened', 'add_stiffener', lambda st: (st, k.call(st, stiffen(st, make(st, 1), 'col_bottom_flange', tb), 'Fc_wc_Rd')),
      lambda st: k.sp(st, 'stiffened_web', eps, twc, bs, tb, hs, n(355), g0, g1), t.Ctx().with_sign(t.sub(lam, n(Fraction('0.2'))), -2))

    # ---------------------------------------- dimensions
    def sizes(st):
        j = make(st, 2)
        k.set(st, j, 'tp', k.s('tp2'))
        k.set(st, j, 'bp', k.s('bp2'))
        k.set(st, j, 'ebolts', k.s('eb2'))
        k.set(st, j, 'etop', k.s('et2'))
        k.set(st, j, 'bolt_size', n(24))
        rows_ = k.items(st, k.get(st, j, 'bolt_rows'))
        return st, k.lst(st, k.get(st, j, 'p'), k.get(st, j, 'bp'), k.get(st, j, 'tp'), k.get(st, j, 'end_plate.h'), k.get(st, j, 'zc'),
                         *[v for o in rows_ for v in (k.get(st, o, 'w'), k.get(st, o, 'ex'), k.get(st, o, 'z_top'), k.get(st, o, 'bolt.As'), k.get(st, o, 'bolt_size'), k.get(st, o, 'h'))])

    def sizes_want(st):
        pv = t.sub(k.s('bp2'), t.mul(n(2), k.s('eb2')))
        top = t.add(t.div(hb, n(2)), k.s('et2'))
        return st, k.lst(st, pv, k.s('bp2'), k.s('tp2'), plus(k.s('et2'), ebot, hb), t.neg(half),
                         *[v for z in zs[:2] for v in (pv, t.sub(top, z), t.sub(top, z), n(353), n(24), t.add(z, half))])
    q('dimensions', 'etop', sizes, sizes_want)

    # ---------------------------------------- moment resistance
    COMP = [(CM, 'col_web_shear'), (CM, 'col_web_trv_comp'), (CM, 'beam_web_compression')]

    def moment(key, forces, groups, limit, types=None, ctx=None, b=n(1), defaults=False):
        """forces of the tension rows; groups: (rows, resistance); limit: (shear, compression of the web, compression of the beam)."""
        types = types or ['TENSION_ROW'] * len(forces)

        def place(st, o):
            z = k.get(st, o, 'z')
            return next(i for i, v in enumerate(zs) if v == z)

        def row_force(it, st, a, kw):
            v = forces[place(st, a[0])]
            k.raw(st, a[0], 'FtRd', v)
            return v

        def group_force(it, st, a, kw):
            rs = [place(st, o) for o in k.items(st, k.get(st, a[0], 'rows'))]
            v = next(v for g, v in groups if list(g) == rs)
            k.raw(st, a[0], 'FtRd', v)
            return v
        ov = {(E8, 'BoltRow.tension_resistance'): row_force, (E8, 'BoltRowGroup.tension_resistance'): group_force,
              COMP[0]: lambda it, st, a, kw: limit[0], COMP[1]: lambda it, st, a, kw: I.Tup((limit[1], n(100))), COMP[2]: lambda it, st, a, kw: limit[2]}

        def code(st):
            for x, fn in ov.items():
                k.it.func_overrides[x] = fn
            try:
                j = make(st, len(forces), [g for g, v in groups], types, b, defaults)
                v = k.get(st, j, 'MjRd')
                # a second evaluation starts again from the rows
                return st, k.lst(st, v, k.call(st, j, 'bending_resistance'))
            finally:
                for x in ov:
                    k.it.func_overrides.pop(x, None)

        def want(st):
            live = [i for i, x in enumerate(types) if x != 'SHEAR_ROW']
            gs = k.lst(st, *[k.lst(st, k.lst(st, *[n(i) for i in g]), v) for g, v in groups])
            F = t.min_([t.div(limit[0], b), limit[1], limit[2]])
            v = k.sp(st, 'moment', k.lst(st, *[forces[i] for i in live]), gs, k.lst(st, *[t.add(zs[i], half) for i in live]), F)
            st, v = v if isinstance(v, tuple) else (st, v)
            return st, k.lst(st, v, v)
        q('moment.' + key, 'bending_resistance', code, want, ctx)
    F = [n(v) for v in (200, 150, 120, 90)]
    big = (n(10 ** 6), n(10 ** 6), n(10 ** 6))
    moment('rows', F[:3], [], big)
    moment('default-types', F[:3], [], big, defaults=True)
    moment('shear-rows', F, [], big, ['TENSION_ROW', 'TENSION_ROW', 'SHEAR_ROW', 'SHEAR_ROW'])
    moment('combined-rows', F[:3], [], big, ['TENSION_ROW', 'COMBI_ROW', 'SHEAR_ROW'])
    moment('group', F[:3], [((0, 1), n(300))], big)
    moment('group-wide', F[:3], [((0, 1), n(400))], big)
    moment('group-first', F[:3], [((0, 1), n(180))], big)
    moment('groups', F[:3], [((0, 1), n(300)), ((1, 2), n(200)), ((0, 1, 2), n(330))], big)
    moment('groups-order', F[:3], [((0, 1, 2), n(330)), ((1, 2), n(120)), ((0, 1), n(290))], big)
    moment('limit-shear', F[:3], [], (n(300), n(400), n(500)))
    moment('limit-beta', F[:3], [], (n(520), n(400), n(500)), b=n(2))
    moment('limit-web', F[:3], [], (n(500), n(380), n(900)))
    moment('limit-beam', F[:3], [((0, 1), n(300))], (n(900), n(380), n(190)))
    sym = k.ss('F0 F1')
    moment('symbolic', sym, [((0, 1), k.s('G'))], (k.s('Vs'), t.add(k.s('Vs'), k.s('more')), t.add(k.s('Vs'), k.s('most'))))

    # ---------------------------------------- initial stiffness
    ks = k.ss('q0 q1 q2 q3')

    def initial(key, count, types, stiff=False):
        live = [i for i, x in enumerate(types) if x != 'SHEAR_ROW']

        def keff(it, st, a, kw):
            z = k.get(st, a[0], 'z')
            return ks[next(i for i, v in enumerate(zs) if v == z)]

        def code(st):
            k.it.func_overrides[(E8, 'BoltRow.keff')] = keff
            try:
                j = make(st, count, types=types)
                k.it.func_overrides[(CM, 'col_web_trv_comp_k')] = lambda it, st, a, kw: k.s('kc')
                if stiff:
                    stiffen(st, j, 'col_bottom_flange', tb)
                return st, k.call(st, j, 'Sj_ini')
            finally:
                k.it.func_overrides.pop((E8, 'BoltRow.keff'), None)
                k.it.func_overrides.pop((CM, 'col_web_trv_comp_k'), None)

        def want(st):
            kk = k.lst(st, *[ks[i] for i in live])
            hh = k.lst(st, *[t.add(zs[i], half) for i in live])
            k1 = t.div(t.mul(n(Fraction('0.38')), Avc), beta)
            Es = n(210000)
            if stiff:
                return k.sp(st, 'initial_stiffness_stiffened', Es, kk, hh, k1)
            return k.sp(st, 'initial_stiffness', Es, kk, hh, k1, k.s('kc'))
        q('stiffness.' + key, 'Sj_ini', code, want)
    T, S = 'TENSION_ROW', 'SHEAR_ROW'
    initial('one', 1, [T])
    initial('two', 2, [T, T])
    initial('three', 3, [T, T, T])
    initial('three-shear', 4, [T, T, T, S])
    initial('two-shear', 3, [T, T, S])
    initial('stiffened', 2, [T, T], True)

    # ---------------------------------------- roles of rows next to a stiffener
    for tag, sg, cont in (('above', 1, True), ('above-end', 1, False), ('below', -1, True)):
        def roles(st, cont=cont):
            j = make(st, 3, [(0, 1), (1, 2)])
            k.raw(st, j, 'continuous_column', cont)
            stiffen(st, j, 'col_top_flange', tt)
            return st, k.lst(st, *[k.get(st, o, 'loc_col_flange') for o in k.items(st, k.get(st, j, 'bolt_rows'))])

        def roles_want(st, tag=tag):
            names = {'above': ('ADJACENT_TO_STIFFENER_ROW', 'ADJACENT_TO_STIFFENER_ROW', 'INNER_ROW'),
                     'above-end': ('END_ROW_ADJACENT_TO_STIFFENER', 'ADJACENT_TO_STIFFENER_ROW', 'INNER_ROW'),
                     'below': ('ADJACENT_TO_STIFFENER_ROW', 'INNER_ROW', 'INNER_ROW')}[tag]
            return st, k.lst(st, *[const(k, x) for x in names])
        q('roles.' + tag, 'add_stiffener', roles, roles_want, t.Ctx().with_sign(t.sub(zs[0], t.div(hb, n(2))), sg))
