"""C01: geometry of steel sections equals the mechanics of the drawn shape."""
from ..kit import Kit

EXPLAIN = ('Value-number abstract interpretation of the section constructors and geometry methods on symbolic '
           'dimensions; the canonical value graph of every property is compared with an independently written '
           'reference (spec/sections.py). Each obligation is one property of one section family.')

RHS = 'metku.sections.steel.RHS'
CHS = 'metku.sections.steel.CHS'
ISE = 'metku.sections.steel.ISection'
WI = 'metku.sections.steel.wi'
SS = 'metku.sections.steel.steel_section'
RULE = 'section-geometry = reference'


def family(k, tag, mod, cls, dims, spec, attrs, args=None, where=None):
    """attrs: list of (attribute, path in the reference dict, element)"""
    k.it.steps = 0

    def code(attr):
        def go(st):
            sec = k.new(st, mod, cls, *(args or dims))
            v = k.get(st, sec, attr[0])
            return v
        return go

    def want(attr):
        def go(st):
            d = k.sp(st, spec, *dims)
            return k.it.getitem(st, d, attr[1])
        return go
    for a in attrs:
        if isinstance(a, str):
            a = (a, a)
        k.eq('%s.%s' % (tag, a[0]), where or (mod, cls), RULE, code(a), want(a))


def run(r):
    k = Kit(r, 'sections')
    H, B, T, D = k.ss('H B T D')
    family(k, 'RHS', RHS, 'RHS', [H, B, T], 'rhs',
           ['R', 'A', 'Au', 'I', 'Wel', 'Wpl', 'Ashear', 'It', 'Iw'])
    family(k, 'SHS', RHS, 'SHS', [H, H, T], 'rhs', ['R', 'A', 'Au', 'I', 'Wel', 'Wpl', 'Ashear', 'It'], args=[H, T])
    family(k, 'CHS', CHS, 'CHS', [D, T], 'chs', ['A', 'Au', 'I', 'Wel', 'Wpl', 'Ashear', 'It', 'Iw'])
    family(k, 'CustomCHS', CHS, 'CustomCHS', [D, T], 'chs', ['A', 'Au', 'I', 'Wel', 'Wpl', 'Ashear', 'It'])
    for tag, fn, args, key in [('CHS_area', 'CHS_area', [D, T], 'A'), ('CHS_paint_area', 'CHS_paint_area', [D], 'Au'),
                               ('CHS_torsion_modulus', 'CHS_torsion_modulus', [D, T], 'It')]:
        k.eq('fn.' + tag, (CHS, fn), RULE, lambda st, fn=fn, args=args: k.f(st, CHS, fn, *args),
             lambda st, key=key: k.it.getitem(st, k.sp(st, 'chs', D, T), key))

    k = Kit(r, 'sections')
    h, b, tf, tw, rr = k.ss('h b tf tw r')
    for cls in ('ISection', 'CustomISection'):
        family(k, cls, ISE, cls, [h, b, tf, tw, rr], 'rolled_i',
               ['A', 'Au', 'I', 'Wel', 'Wpl', 'It', 'Iw', 'hw', 'cf'], where=(ISE, 'cross_section_properties'))
        k.eq('%s.Ashear' % cls, (ISE, 'cross_section_properties'), RULE,
             lambda st, cls=cls: k.it.getitem(st, k.get(st, k.new(st, ISE, cls, h, b, tf, tw, rr), 'Ashear'), k.n(1)),
             lambda st: k.it.getitem(st, k.sp(st, 'rolled_i', h, b, tf, tw, rr), 'Ashear'))
    k.eq('section_factor', (SS, 'SteelSection.section_factor'), RULE,
         lambda st: k.get(st, k.fake(st, ISE, 'ISection', 'o', A=h, Au=b), 'section_factor'),
         lambda st: k.sp(st, 'section_factor', b, h))
    for p, q in [('iy', 0), ('iz', 1)]:
        k.eq('gyration.' + p, (SS, 'SteelSection.' + p), RULE,
             lambda st, p=p: k.call(st, k.fake(st, ISE, 'ISection', 'o', A=h, I=k.lst(st, tf, tw), rotate=False), p),
             lambda st, q=q: k.sp(st, 'gyration', [tf, tw][q], h))
    k.eq('gyration.i0', (SS, 'SteelSection.i0'), RULE,
         lambda st: k.call(st, k.fake(st, ISE, 'ISection', 'o', A=h, I=k.lst(st, tf, tw), rotate=False), 'i0'),
         lambda st: k.sp(st, 'polar', tf, tw, h))
    k.eq('weight', (SS, 'SteelSection.weight'), RULE,
         lambda st: k.call(st, k.fake(st, ISE, 'ISection', 'o', A=h), 'weight'), lambda st: k.sp(st, 'weight', h))
    k.eq('self_weight', (SS, 'SteelSection.self_weight'), RULE,
         lambda st: k.call(st, k.fake(st, ISE, 'ISection', 'o', A=h), 'self_weight'),
         lambda st: k.sp(st, 'self_weight', h))

    k = Kit(r, 'sections')
    h, tw, bt, bb, tt, tb = k.ss('h tw bt bb tt tb')

    def wi(st):
        return k.new(st, WI, 'WISection', h, tw, k.lst(st, bt, bb), k.lst(st, tt, tb))

    def wref(st, key):
        return k.it.getitem(st, k.sp(st, 'welded_i', h, tw, bt, bb, tt, tb), key)
    for a in ['A', 'hw', 'I', 'Wel', 'It', 'Iw', 'Au']:
        k.eq('WISection.' + a, (WI, 'WISection'), RULE, lambda st, a=a: k.get(st, wi(st), a),
             lambda st, a=a: wref(st, a))
    k.eq('WISection.Wpl', (WI, 'WISection.plastic_section_modulus'), RULE, lambda st: k.get(st, wi(st), 'Wpl'),
         lambda st: k.sp(st, 'welded_i_wpl', h, tw, bt, bb, tt, tb))
    k.eq('WISection.pna', (WI, 'WISection.plastic_neutral_axis'), RULE,
         lambda st: k.call(st, wi(st), 'plastic_neutral_axis'),
         lambda st: k.sp(st, 'welded_i_pna', h, tw, bt, bb, tt, tb))
    k.eq('WISection.ena', (WI, 'WISection.elastic_neutral_axis'), RULE,
         lambda st: k.call(st, wi(st), 'elastic_neutral_axis'), lambda st: wref(st, 'ze'))
