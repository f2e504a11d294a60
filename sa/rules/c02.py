"""C02: changing a dimension is equivalent to building the object with that dimension."""
from ..kit import Kit
from .. import terms as t
from .c01 import RHS, CHS, ISE, WI

EXPLAIN = ('For every resizable object the value graph of each derived property after assigning new dimensions '
           '(one at a time, and all of them in several orders, from an arbitrary earlier state) is compared with '
           'the value graph of the same property of an object constructed with the new dimensions.')
RULE = 'resize = rebuild'
EN8 = 'metku.eurocodes.en1993.en1993_1_8.en1993_1_8'
TS = 'metku.sections.timber.timber_section'


def resize(k, tag, build, sets, attrs, where, after=None):
    """build(st, dims) -> object; sets: list of (attr names in assignment order)"""
    for order in sets:
        def changed(st, order=order):
            old = {d: k.s(d + '0') for d in build.dims}
            o = build(st, old)
            for d in order:
                k.set(st, o, d, k.s(d))
            if after:
                k.call(st, o, after)
            return o

        def rebuilt(st, order=order):
            return build(st, {d: k.s(d) if d in order else k.s(d + '0') for d in build.dims})
        pair(k, tag, ','.join(order), changed, rebuilt, attrs, where)


def pair(k, tag, label, changed, rebuilt, attrs, where):
    g, w = k.shared(changed), k.shared(rebuilt)

    def rd(x, a):
        st, o = x()
        return st, read(k, st, o, a)
    for a in attrs:
        k.eq('%s.%s[%s]' % (tag, a, label), where, RULE, lambda st, a=a: rd(g, a), lambda st, a=a: rd(w, a))


def read(k, st, o, a):
    if a.endswith('()'):
        return k.call(st, o, a[:-2])
    return k.get(st, o, a)


def builder(dims, f):
    def b(st, d):
        return f(st, d)
    b.dims = dims
    return b


def run(r):
    k = Kit(r)
    rhs = builder('H B T'.split(), lambda st, d: k.new(st, RHS, 'RHS', d['H'], d['B'], d['T']))
    resize(k, 'RHS', rhs, [('H',), ('B',), ('T',), ('T', 'B', 'H')],
           ['R', 'A', 'Au', 'I', 'Wel', 'Wpl', 'Ashear', 'It', 'c_web', 'c_flange', 'h', 'b', 't', 'r'],
           (RHS, 'RHS.update_properties'))
    chs = builder('D T'.split(), lambda st, d: k.new(st, CHS, 'CustomCHS', d['D'], d['T']))
    resize(k, 'CustomCHS', chs, [('D',), ('T',), ('D', 'T')],
           ['A', 'Au', 'I', 'Wel', 'Wpl', 'Ashear', 'It'], (CHS, 'CustomCHS.__getattribute__'))
    k = Kit(r)
    ci = builder('H B tf tw r'.split(),
                 lambda st, d: k.new(st, ISE, 'CustomISection', d['H'], d['B'], d['tf'], d['tw'], d['r']))
    resize(k, 'CustomISection', ci, [('H',), ('B',), ('tf',), ('tw',), ('r',), ('H', 'B', 'tf', 'tw', 'r')],
           ['A', 'Au', 'I', 'Wel', 'Wpl', 'Ashear', 'It', 'Iw', 'h', 'b', 'hw', 'cf'],
           (ISE, 'CustomISection.cross_section_properties'), after='cross_section_properties')
    k = Kit(r)
    wi = builder('h tw bt bb tt tb'.split(),
                 lambda st, d: k.new(st, WI, 'WISection', d['h'], d['tw'], k.lst(st, d['bt'], d['bb']),
                                     k.lst(st, d['tt'], d['tb'])))
    at = ['A', 'Au', 'I', 'Wel', 'It', 'Iw', 'hw', 'cw', 'cf_top', 'cf_bottom', 'Aw', 'At', 'Ab', 'b', 'tf']
    resize(k, 'WISection', wi, [('h',), ('tw',), ('bt',), ('bb',), ('tt',), ('tb',)],
           at, (WI, 'WISection.__getattribute__'))
    resize(k, 'WISection', wi, [('tb', 'bt', 'h', 'tw', 'tt', 'bb')], at + ['Wpl', 'Ashear'],
           (WI, 'WISection.__getattribute__'))
    # uniform flange width / thickness and web height setters
    pair(k, 'WISection', 'b=', lambda st: assign(k, st, mk_wi(k, st), 'b', k.s('b1')),
         lambda st: mk_wi(k, st, bt='b1', bb='b1'), at, (WI, 'WISection.__setattr__'))
    pair(k, 'WISection', 'tf=', lambda st: assign(k, st, mk_wi(k, st), 'tf', k.s('t1')),
         lambda st: mk_wi(k, st, tt='t1', tb='t1'), at, (WI, 'WISection.__setattr__'))
    pair(k, 'WISection', 'hw=', lambda st: assign(k, st, mk_wi(k, st), 'hw', k.s('hw1')),
         lambda st: mk_wi(k, st, h=t.add(t.add(k.s('hw1'), k.s('tt')), k.s('tb'))),
         ('hw', 'h', 'A', 'Aw', 'I'), (WI, 'WISection.__setattr__'))
    k = Kit(r)
    # timber: rectangular section at time zero
    for dim in ('B', 'H'):
        pair(k, 'Timber', dim,
             lambda st, dim=dim: assign(k, st, k.new(st, TS, 'TimberSection', k.s('B0'), k.s('H0')), dim, k.s(dim + '1')),
             lambda st, dim=dim: k.new(st, TS, 'TimberSection', k.s('B1' if dim == 'B' else 'B0'),
                                       k.s('H1' if dim == 'H' else 'H0')),
             ('A', 'I', 'Wel', 'H', 'B'), (TS, 'TimberSection'))
    # bolts
    for s0, s1 in [(12, 16), (16, 20), (20, 24), (24, 30), (30, 36), (36, 12)]:
        for L in (50, 30, 75, 120, 190):
            pair(k, 'Bolt', '%d->%d,L=%d' % (s0, s1, L),
                 lambda st, s0=s0, s1=s1, L=L: assign(k, st, k.new(st, EN8, 'Bolt', k.n(s0), length=k.n(L)), 'size', k.n(s1)),
                 lambda st, s1=s1, L=L: k.new(st, EN8, 'Bolt', k.n(s1), length=k.n(L)),
                 ('d', 'd0', 'A', 'As', 'head_t', 'head_d', 'nut_t', 'nut_e', 'washer_t', 'washer_d', 'dw', 'length',
                  'bolt_type', 'size') if L == 50 else ('length', 'bolt_type'), (EN8, 'Bolt.size'))


def assign(k, st, o, name, v):
    k.set(st, o, name, v)
    return o


def mk_wi(k, st, **kw):
    d = {x: k.s(x) for x in 'h tw bt bb tt tb'.split()}
    for n, v in kw.items():
        d[n] = k.s(v) if isinstance(v, str) else v
    return k.new(st, WI, 'WISection', d['h'], d['tw'], k.lst(st, d['bt'], d['bb']), k.lst(st, d['tt'], d['tb']))
