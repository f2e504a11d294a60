"""C21: timber sections and members, in the cold state and in fire."""
from fractions import Fraction

from .. import terms as t
from ..core import Dev, Undecided
from .c19 import Case as Base, positive

EXPLAIN = ('Scenarios that build timber sections (rectangular, tapered, curved, with and without fire protection on each side) and timber '
           'members with lateral supports and internal forces through the library, with symbolic dimensions, times and forces, compared '
           'with a reference of EN 1995-1-1 and EN 1995-1-2.')
RULE = 'EN 1995 as stated'
SE = 'metku.sections.timber.timber_section'
MB = 'metku.structures.timber.timber_member'
MA = 'metku.materials.timber_data'
E1 = 'metku.eurocodes.en1995.en1995_1_1'
E2 = 'metku.eurocodes.en1995.en1995_1_2'
FP = 'metku.eurocodes.en1995.fire_protection'
F = Fraction

SOLID = ['C14', 'C16', 'C18', 'C20', 'C22', 'C24', 'C27', 'C30', 'C35', 'C40', 'D30', 'D35', 'D40', 'D50', 'D60', 'D70']
GLULAM = ['GL24c', 'GL24h', 'GL28c', 'GL28h', 'GL32c', 'GL32h']
LVL = ['Kerto_S', 'Kerto_T', 'Kerto_Q_21_24', 'Kerto_Q_27_69']
CLASSES = ['perm', 'lt', 'mt', 'st', 'inst']


class Case(Base):
    def __init__(self, r, hints=None):
        super().__init__(r, hints)
        from ..kit import Kit
        self.k = Kit(r, 'timber', hints=hints)

    def eq(self, key, where, name, want, code, ref=None, ctx=None, assume=False):
        k = self.k
        k.eq(key, where, RULE, lambda st: (st, k.sp(st, 'timbercase:' + name, *[self.val(st, v) for v in code])),
             lambda st: self.want(st, k.sp(st, want, *[self.val(st, v) for v in (ref if ref is not None else code)])), ctx, assume=assume)

    def want(self, st, v):
        return v


def above(*pairs):
    return positive(*[t.sub(a, b if not isinstance(b, (int, F)) else t.num(b)) for a, b in pairs])


def run(r):
    tables(r)
    fire(r)
    tapered(r)
    strengths(r)
    checks(r)
    stability(r)
    apex(r)


def tables(r):
    c = Case(r)
    for g in SOLID + GLULAM + LVL:
        c.eq('grade.' + g, (MA, 'Timber.__init__'), 'grade', 'grade', [g, g in LVL], [g])
    for kind in ('solid_timber', 'glt', 'lvl'):
        for sc in (1, 2, 3):
            for d in CLASSES:
                c.eq('kmod.%s.%d.%s' % (kind, sc, d), (E1, 'kmod'), 'kmod', 'kmod', [kind, sc, d], [sc, d])
            c.eq('kdef.%s.%d' % (kind, sc), (E1, 'kdef'), 'kdef', 'kdef', [kind, sc], [sc])
    f, k, g = c.k.ss('f k g')
    c.eq('design_value', (E1, 'k_to_d'), 'design_value', 'design_value', [f, k, g])


def fire(r):
    hints = {'B': (300, 900), 'H': (400, 1500), 'B2': (300, 900), 'H2': (400, 1500), 'T': (1, 120), 'tch': (5, 60), 'tf': (30, 90),
             'ta': (60, 120), 'bn': (0.5, 1)}
    c = Case(r, hints)
    k = c.k
    for g in SOLID + GLULAM + LVL:
        if g[0] != 'D':
            for h in (100, 20, 10):
                c.eq('charring.%s.%d' % (g, h), (E2, 'charring_speed'), 'charring', 'charring', [g, h])
    T, bn, tch, tf, ta = k.ss('T bn tch tf ta')
    c.eq('char.unprotected', (E2, 'd_char_n'), 'char_unprotected', 'char_unprotected', [T, bn])
    c.eq('char.together', (E2, 'd_char_n'), 'char_protected', 'char_protected', [T, bn, tch, tch, ta], ctx=above((ta, tch)))
    c.eq('char.later', (E2, 'd_char_n'), 'char_protected', 'char_protected', [T, bn, tch, tf, ta], ctx=above((ta, tf), (tf, tch)))
    B, H, B2, H2 = k.ss('B H B2 H2')
    for g in ('C24', 'GL32c', 'Kerto_S', 'Kerto_T'):
        for sides in (3, 4):
            c.eq('unprotected.%s.%d' % (g, sides), (SE, 'TimberSection.H'), 'fire_section', 'fire_section',
                 [g, B, H, T, sides, None, None, None, None])
    p, q = (15, 15), (30, 30)
    for n, (sides, pr) in enumerate([(4, (p, None, None, None)), (4, (None, p, None, None)), (4, (None, None, p, None)),
                                     (4, (None, None, None, p)), (3, (q, p, p, q)), (4, (q, p, p, q))]):
        for tm in (5, 15, 20, 28, 30, 33, 45, 60):
            c.eq('protected.%d.%d' % (n, tm), (SE, 'TimberSection.__init__'), 'fire_section', 'fire_section',
                 ['GL32c', B, H, tm, sides] + list(pr))
    for sides in (3, 4):
        for cover in (3, 4):
            for tm in (10, 40):
                c.eq('generic.%d.%d.%d' % (sides, cover, tm), (SE, 'TimberSection.__init__'), 'generic_fire', 'generic_fire',
                     ['C24', B, H, tm, sides, cover, q])
    for g in ('C24', 'GL28h'):
        c.eq('resized.' + g, (SE, 'TimberSection.B'), 'resized', 'resized', [g, B, H, B2, H2, T], [g, B2, H2, T])
    for g in ('C24', 'GL32c', 'Kerto_T'):
        for h in (15, 22):
            c.eq('wood.%s.%d' % (g, h), (FP, 'WoodenFireProtection.__init__'), 'wood_protection', 'wood_protection', [g, h])
    for kind, h, small, large in (('A', 13, 22, 13), ('F', 15, 28, 19), ('H', 9, 11, 2), ('AA', 26, 40, 31), ('FF', 30, 61, 52),
                                  ('HH', 18, 23, 14), ('AF', 28, 46, 37)):
        for gap, want in ((0, small), (1, small), (2, large), (3, large)):
            k.eq('board.%s.%d' % (kind, gap), (FP, 'GypsumPlasterboard%s.__init__' % kind), RULE,
                 lambda st, kind=kind, gap=gap: (st, k.sp(st, 'timbercase:board', kind, k.n(gap))),
                 lambda st, want=want, h=h: c.val(st, [want, h]))
        if 'F' in kind:
            for g in ('C24', 'GL32c'):
                c.eq('failure.%s.%s' % (kind, g), (FP, 'FireProtection.set_tf_for_gypsumF'), 'board_times', 'gypsum_f', [kind, 0, g],
                     [g, small])
        else:
            k.eq('failure.%s' % kind, (FP, 'GypsumPlasterboard%s.__init__' % kind), RULE,
                 lambda st, kind=kind: (st, k.sp(st, 'timbercase:board_times', kind, k.n(0), 'C24')),
                 lambda st, want=small: c.val(st, [want, want]))


def tapered(r):
    c = Case(r, {'B': (100, 300), 'h0': (300, 900), 'h1': (900, 1800), 'a': (200, 900), 'b': (200, 900), 'p': (0.1, 0.9), 'q': (0.1, 0.9),
                 'x': (0, 1), 'L': (10000, 30000), 'R': (5000, 9000)})
    B, h0, h1, a, b, p, q, x = c.k.ss('B h0 h1 a b p q x')
    c.eq('single', (SE, 'PulpettiPalkki.get_unmodified_h'), 'single_at', 'single_at', [B, h0, h1, x], ctx=above((h1, h0)))
    for y in (0, F(1, 4), F(1, 2), F(3, 4), 1):
        for ap in (F(1, 2), F(3, 10)):
            c.eq('double.%s.%s' % (ap, y), (SE, 'HarjaPalkki.get_unmodified_h'), 'double_at', 'double_at', [B, h0, h1, ap, y], ctx=above((h1, h0)))
    c.eq('single.elements', (SE, 'TaperedSection.create_elements'), 'single_elements', 'single_elements', [B, h0, h1, 4])
    c.eq('single.changed', (SE, 'TaperedSection.update_elements'), 'single_changed', 'single_elements', [B, h0, h1, 3, a, b], [B, h0, h1, 3])
    c.eq('double.elements', (SE, 'TaperedSection.create_elements'), 'double_elements', 'double_elements', [B, h0, h1, F(1, 2), 4],
         ctx=above((h1, h0)))
    c.eq('double.changed', (SE, 'TaperedSection.update_elements'), 'double_changed', 'double_elements',
         [B, h0, h1, F(3, 5), 4, a, b, F(1, 2)], [B, h0, h1, F(3, 5), 4], ctx=above((h1, h0)))
    for arched, cl in ((True, 'KaarevaPalkki'), (False, 'KaarevaHarjaPalkki')):
        for ad, bd, rr, L in ((15, 15, 8000, 20000), (20, 15, 8000, 16000)):
            xs = [0, F(1, 10), F(3, 10), F(9, 20), F(1, 2), F(3, 5), F(4, 5), 1]
            def want(st, ad=ad, bd=bd, rr=rr, L=L, xs=xs, arched=arched):
                k = c.k
                al, be = [t.mul(t.PI(), t.num(F(d, 180))) for d in (ad, bd)]
                return k.lst(st, *[k.sp(st, 'curved_height', k.n(L), h0, al, be, k.n(rr), k.n(x * L), arched) for x in xs + [F(1, 2)]])
            c.k.eq('curved.%s.%d' % (cl, ad), (SE, cl + '.get_unmodified_h'), RULE,
                   lambda st, ad=ad, bd=bd, rr=rr, L=L, xs=xs, arched=arched:
                   (st, c.k.sp(st, 'timbercase:curved_height', *[c.val(st, v) for v in (B, h0, ad, bd, rr, L, xs, arched)])), want)


def strengths(r):
    c = Case(r, {'H': (50, 900), 'B': (50, 900), 'L': (500, 20000)})
    B, H, L = c.k.ss('B H L')
    for g, sc, d in (('C24', 1, 'mt'), ('D70', 2, 'st'), ('GL32c', 3, 'perm'), ('Kerto_S', 1, 'lt'), ('Kerto_T', 2, 'inst')):
        c.eq('bending_strength.' + g, (SE, 'TimberSection.k_h'), 'bending_strength', 'bending_strength', [g, B, H, sc, d], [g, H, sc, d])
    for g, sc, d in (('Kerto_S', 1, 'lt'), ('Kerto_T', 3, 'inst')):
        c.eq('tension_strength.' + g, (MB, 'TimberMember.k_L'), 'lvl_tension', 'lvl_tension', [g, B, H, L, sc, d], [g, L, sc, d])
    for g, sc, d in (('C24', 1, 'mt'), ('GL28h', 3, 'perm'), ('D30', 2, 'st'), ('GL24c', 1, 'inst')):
        c.eq('strengths.' + g, (MB, 'TimberMember.fc0d'), 'strengths', 'strengths', [g, sc, d])
        c.eq('creep.' + g, (MB, 'TimberMember.get_kdef'), 'creep', 'kdef', [g, sc], [sc])
    for g, sc, d in (('Kerto_S', 1, 'mt'), ('Kerto_Q_21_24', 3, 'perm')):
        for way in ('edge', 'flat'):
            c.eq('strengths.%s.%s' % (g, way), (MB, 'TimberMember.fc90d'), 'lvl_strengths', 'lvl_strengths', [g, sc, d, way])


# material, service class, load duration; dimensions large enough for size factors to be one
CASES = [('C24', 1, 'mt'), ('D70', 2, 'st'), ('GL28h', 3, 'perm')]


def checks(r):
    c = Case(r, {'B': (650, 900), 'H': (650, 1500), 'b': (100, 200)})
    k = c.k
    B, H, b = k.ss('B H b')
    N, My, Mz, Vy, Vz, Tx = k.ss('N My Mz Vy Vz Tx', '?')
    P = k.s('P')
    big = above((B, 600), (H, 600), (B, 150), (H, 150))
    neg = t.neg(P)
    for g, sc, d in CASES:
        a = [g, B, H, sc, d]
        c.eq('axial.' + g, (MB, 'TimberMember.check_normal_force'), 'axial', 'axial', a + [N], ctx=big, assume=True)
        c.eq('bending.' + g, (MB, 'TimberMember.check_bending_moment'), 'bending', 'bending', a + [My, Mz], ctx=big, assume=True)
        c.eq('tension_bending.' + g, (MB, 'TimberMember.check_bending_tension'), 'tension_bending', 'tension_bending',
             a + [P, My, Mz], ctx=big, assume=True)
        c.eq('compression_bending.' + g, (MB, 'TimberMember.check_bending_compression'), 'compression_bending', 'compression_bending',
             a + [neg, My, Mz], ctx=big, assume=True)
        for varnished in (False, True):
            c.eq('shear.%s.%s' % (g, varnished), (MB, 'TimberMember.check_shear_force'), 'shear', 'shear', a + [Vy, Vz, varnished],
                 ctx=big, assume=True)
    for g, ratio in (('C24', 1), ('GL28h', F(3, 2)), ('C30', 2), ('C24', F(5, 2)), ('D30', 3), ('C24', 4), ('C24', 5), ('GL32h', 6), ('C24', 8)):
        c.eq('torsion.%s.%s' % (g, ratio), (MB, 'TimberMember.check_torsion'), 'torsion', 'torsion', [g, b, ratio, 1, 'mt', Tx])
    for ratio in (F(3, 2), 3, 5):
        c.eq('torsion.lying.%s' % ratio, (MB, 'TimberMember.I_tor'), 'lying', 'lying', ['C24', b, ratio, Tx])
    for ratio in (F(11, 10), F(13, 10), F(17, 10), F(22, 10), F(28, 10), F(35, 10), F(45, 10), F(55, 10), 7, F(85, 10), 12):
        def thunk(ratio=ratio):
            st = k.st()
            al, be = k.items(st, k.sp(st, 'timbercase:torsion_bounds', k.n(100), k.n(100 * ratio)))
            out = []
            for name, v, lo in (('torsional constant', al, 0.141), ('torsional resistance', be, 0.208)):
                x = v.const() if isinstance(v, t.E) else None
                if x is None:
                    raise Undecided('%s of a rectangle is not a number' % name)
                if not lo <= float(x) <= 1 / 3 + 1e-9:
                    out.append(Dev('%s of a rectangle with depth to width %s is %.4f of h b^n, outside [%s, 1/3]'
                                   % (name, float(ratio), float(x), lo)))
            return out
        k.must('torsion.range.%s' % ratio, (MB, 'TimberMember.I_tor'), RULE, thunk)
    loc = [0, F(1, 20), F(2, 20), F(1, 2), F(18, 20), F(19, 20), 1]
    for hh in (700, 1100):
        c.eq('shear.reduced.%d' % hh, (MB, 'TimberMember.check_shear_force'), 'reduced_shear', 'reduced_shear',
             ['GL28h', 200, hh, 10000, 1, 'mt', loc, k.ss('V0 V1 V2 V3 V4 V5 V6')])
    c.eq('sections', (MB, 'TimberMember.check_sections'), 'envelope', 'envelope',
         ['GL28h', 700, 800, 6000, 1, 'mt', [0, F(1, 2), 1], [-3000, 9000, 4000], [70000, -90000, 20000], [-400, 100, 300]])


def stability(r):
    c = Case(r, {'B': (650, 900), 'H': (650, 1500), 'L': (8000, 20000), 'by': (0.7, 1), 'bz': (0.7, 1)})
    k = c.k
    B, H, L, by, bz = k.ss('B H L by bz')
    SUP = {'none': [[], []], 'mid': [[], [F(1, 2)]], 'both': [[F(2, 5)], [F(1, 4), F(3, 5)]], 'unsorted': [[F(7, 10), F(1, 5)], [F(4, 5), F(1, 10), F(1, 2)]]}
    for nm, (sy, sz) in SUP.items():
        c.eq('segments.' + nm, (MB, 'TimberMember.calc_l_c'), 'segments', 'both_segments', [L, sy, sz])
    for g in ('C24', 'D40', 'GL28h', 'Kerto_S'):
        c.eq('k_c.' + g, (MB, 'TimberMember.k_c'), 'reduction', 'reduction_beta', [g, B, H, L, by, bz])
    c.eq('k_c.one', (MB, 'TimberMember.Ln'), 'reduction_one', 'reduction_beta', ['GL28h', B, H, L, by], ['GL28h', B, H, L, by, by])
    loc = [0, F(1, 5), F(2, 5), F(3, 5), F(4, 5), 1]
    N = [-90000, -80000, -85000, -60000, -70000, -95000]
    Nt = [-90000, 20000, 30000, 10000, -70000, -5000]
    Nl = [-90000, 200000, -40000, 210000, -70000, 250000]
    My = [0, 7 * 10**7, -9 * 10**7, 4 * 10**7, -2 * 10**7, 10**7]
    Mz = [10**7, -3 * 10**7, 10**7, -2 * 10**7, 2 * 10**7, 0]
    for nm, (sy, sz) in SUP.items():
        for g, sc, d in (('C24', 1, 'mt'), ('GL28h', 2, 'st')):
            for q, nn in (('compression', N), ('mixed', Nt), ('reversed', Nl), ('tension', [-x for x in N])):
                c.eq('buckling.%s.%s.%s' % (nm, g, q), (MB, 'TimberMember.check_buckling'), 'buckling', 'buckling',
                     [g, 600, 700, 12000, sc, d, [F(9, 10), F(7, 10)], sy, sz, loc, nn, My, Mz])
            c.eq('design.%s.%s' % (nm, g), (MB, 'TimberMember.design'), 'design', 'design',
                 [g, 600, 700, 12000, sc, d, [F(9, 10), F(7, 10)], sy, sz, loc, N, My, Mz])
    for g in ('D70', 'C24'):
        for tm in (10, 30):
            c.eq('fire.%s.%d' % (g, tm), (MB, 'TimberMember.R'), 'fire_member', 'fire_member', [g, 400, 500, 6000, tm, -50000])
    for edge in ('compression', 'tension', 'middle'):
        for g, b, ratio, l in (('C24', 100, 4, 9000), ('GL28h', 150, 8, 18000), ('GL28h', 90, 8, 18000), ('C24', 200, 2, 5000)):
            for nm in ('none', 'both', 'unsorted'):
                sz = SUP[nm][1]
                for j in range(len(sz) + 1):
                    c.eq('lateral.%s.%s.%d.%s.%d' % (edge, g, b, nm, j), (MB, 'TimberMember.k_crit'), 'lateral', 'lateral',
                         [g, b, ratio, l, edge, sz, j])
    zero = [0] * 6
    for nm in ('none', 'both', 'unsorted'):
        sz = SUP[nm][1]
        for g, b, ratio in (('C24', 150, 4), ('GL28h', 160, 8)):
            cases = [('bending', zero, My), ('hogging', zero, [-abs(x) for x in My])]
            if g == 'C24':
                cases += [('compression', N, My)] if nm == 'none' else \
                    [('compression.%d' % i, [N[j] if j == i else 0 for j in range(6)], [My[j] if j == i else 0 for j in range(6)])
                     for i in range(6)]
            for q, nn, mm in cases:
                c.eq('ltb.%s.%s.%s' % (nm, g, q), (MB, 'TimberMember.check_LT_buckling'), 'ltb', 'ltb',
                     [g, b, ratio, 18000, 1, 'mt', 'compression', 1, sz, loc, nn, mm])
            for n in (None, 5):
                for q, mm in (('signs', My), ('hogging', [-abs(x) for x in My])):
                    c.eq('bracing.%s.%s.%s.%s' % (nm, g, q, n), (MB, 'TimberMember.bracing'), 'bracing', 'bracing',
                         [g, b, ratio, 18000, 'compression', sz, loc, mm, n])


def apex(r):
    c = Case(r, {'B': (100, 200), 'h0': (600, 900), 'h1': (900, 1500), 'L': (10000, 20000), 'ri': (5000, 20000), 'th': (20, 60)})
    k = c.k
    B, h0, h1, L, ri, th = k.ss('B h0 h1 L ri th')
    c.eq('apex.double', (MB, 'TimberMember.k_l'), 'apex_double', 'apex_double', [B, h0, h1, L], [h0, h1, L])
    c.eq('apex.bend', (MB, 'TimberMember.k_r'), 'bend_factor', 'bend_factor', [ri, th])
    for arched, cl in ((True, 'KaarevaPalkki'), (False, 'KaarevaHarjaPalkki')):
        for ad, bd, rr, l in ((15, 15, 8000, 20000), (20, 15, 8000, 16000)):
            c.eq('apex.%s.%d' % (cl, ad), (MB, 'TimberMember.k_l'), 'apex_curved', 'apex_at',
                 [B, h0, ad, bd, rr, l, arched], [h0, t.mul(t.PI(), t.num(F(ad, 180))), t.mul(t.PI(), t.num(F(bd, 180))), rr, l, arched])
    for g in ('C24', 'D70', 'GL28h'):
        for kv in (None, F(4, 5)):
            for nm, mm in (('node', [0, 6 * 10**7, 9 * 10**7, 5 * 10**7, 0]), ('between', [0, 6 * 10**7, 9 * 10**7, 0])):
                for a, b, l in ((700, 1300, 20000), (700, 1300, 2000)):
                    c.eq('apex.checks.%s.%s.%s.%d' % (g, kv, nm, l), (MB, 'TimberMember.check_perpendicular_to_grain_tension'),
                         'double_apex_checks', 'double_apex_checks', [g, 150, a, b, l, 1, 'mt', mm, kv],
                         [g, 150, a, b, l, 1, 'mt', mm[2] if len(mm) == 5 else (mm[1] + mm[2]) // 2, kv])
