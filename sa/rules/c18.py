"""C18: joints of rectangular hollow sections (EN 1993-1-8, 7.5)."""
from fractions import Fraction
from ..kit import Kit
from .. import terms as t
from .. import interp as I

EXPLAIN = ('Value graphs of the resistances, utilisation and geometry of K gap, Y and X joints of rectangular hollow sections, given as such '
           'and as joints of a truss, on symbolic dimensions, angles, strengths and forces, compared with EN 1993-1-8, 7.5.')
RULE = 'hollow section joint = EN 1993-1-8, 7.5'
RJ = 'metku.eurocodes.en1993.en1993_1_8.rhs_joints'
FN = 'metku.raami.frame_node'
PT = 'metku.raami.raami_plane_truss'
RHS = 'metku.sections.steel.RHS'
CON = 'metku.eurocodes.en1993.constants'
HINTS = {'t0': (6.1, 10), 'h0': (100, 250), 'b0': (100, 250), 'h1': (40, 120), 'b1': (40, 120), 'h2': (40, 120), 'b2': (40, 120), 't1': (6.1, 8), 't2': (6.1, 8),
         'th1': (30, 80), 'th2': (30, 80), 'fy0': (235, 700), 'fy1': (235, 700), 'fy2': (235, 700), 'g': (10, 50), 'N0': (-1e6, 1e6), 'M0': (-5e7, 5e7), 'N1': (-5e5, 5e5),
         'N2': (-5e5, 5e5), 'V': (0, 3e5), 'E': (2e5, 2.2e5), 'g5': (1, 1.2), 'dx': (-100, 100), 'r': (0.5, 1)}

E0 = 12


class W:
    """Chord and braces of one group of obligations."""

    def __init__(self, r, fixed=False):
        self.k = k = Kit(r, 'tubular', hints=HINTS)
        self.h0, self.b0, self.t0, self.h1, self.b1, self.t1, self.h2, self.b2, self.t2 = k.ss('h0 b0 t0 h1 b1 t1 h2 b2 t2')
        self.th1, self.th2, self.fy0, self.fy1, self.fy2, self.g, self.rr = k.ss('th1 th2 fy0 fy1 fy2 g r')
        self.E = k.n(210000)
        if fixed:
            for a, x in (('h0', 150), ('b0', 160), ('t0', 8), ('h1', 90), ('b1', 80), ('t1', 7), ('h2', 100), ('b2', 95), ('t2', Fraction(13, 2)), ('fy0', 420), ('fy1', 355), ('fy2', 380), ('rr', Fraction(9, 10))):
                setattr(self, a, k.n(x))
        self.N0, self.M0, self.N1, self.N2 = k.ss('N0 M0 N1 N2', '?')
        self.V, self.g5, self.g0, self.comp, self.tens = k.ss('V g5 gammaM0 comp tens')
        if fixed:
            self.g5, self.g0 = k.n(Fraction(21, 20)), k.n(Fraction(11, 10))
        k.it.overrides[(CON, 'gammaM0')] = self.g0
        n = k.n
        k.it.overrides[(CON, 'gammaM5')] = self.g5
        k.it.overrides[(RJ, 'gammaM5')] = self.g5
        k.it.overrides[(PT, 'gammaM5')] = self.g5
        c = t.Ctx()
        if fixed:
            self.ctx = c
            return
        for x in (self.t0, self.t1, self.t2):
            c = c.with_sign(t.sub(x, n(6)), 1).with_sign(t.sub(n(10), x), 1)
        for th in (self.th1, self.th2):
            c = c.with_sign(t.fn('sin', t.div(t.mul(th, t.PI()), n(180))), 1)
        self.ctx = c

    def rad(self, x):
        return t.div(t.mul(x, t.PI()), self.k.n(180))

    def profile(self, st, i):
        k = self.k
        H, B, T, fy = [(self.h0, self.b0, self.t0, self.fy0), (self.h1, self.b1, self.t1, self.fy1), (self.h2, self.b2, self.t2, self.fy2)][i]
        p = k.new(st, RHS, 'RHS', H, B, T)
        k.strength(st, p, fy=fy)
        return p

    def kgap(self, st, plain=True, **kw):
        """A K gap joint between profiles."""
        k = self.k
        p1, p2 = self.profile(st, 1), self.profile(st, 2)
        k.set(st, p1, 'Ned', kw.get('N1', self.N1))
        k.set(st, p2, 'Ned', kw.get('N2', self.N2))
        j = k.new(st, RJ, 'RHSKGapJoint', self.profile(st, 0), k.lst(st, p1, p2), k.lst(st, kw.get('th1', self.th1), kw.get('th2', self.th2)), self.g, N0=self.N0, M0=self.M0)
        k.set(st, j, 'r', kw.get('r', self.rr))
        return j

    def yjoint(self, st, cls='RHSYJoint', **kw):
        k = self.k
        p1 = self.profile(st, 1)
        k.set(st, p1, 'Ned', kw.get('N1', self.N1))
        j = k.new(st, RJ, cls, self.profile(st, 0), p1, self.th1, N0=self.N0, M0=self.M0)
        k.set(st, j, 'r', kw.get('r', self.rr))
        return j

    def layout(self, st, e, chords=2, single=False, slope=0, top=False, N=None):
        """Lower chord with a K joint (or a Y joint) at the origin, its braces and the joints at their other ends."""
        k = self.k
        n = k.n
        F = Fraction

        def node(x, y):
            return k.new(st, FN, 'FrameNode', k.lst(st, n(F(x)), n(F(-y if top else y))))
        mid, left, right = node(0, 0), node(-3000, -3000 * slope), node(3000, 3000 * slope)
        up = [node(-1200, 1500), node(1700, 1600)]
        ends = [node(-4000, 1500), node(4000, 1600)]
        p0 = self.profile(st, 0)
        own, other = ('TopChord', 'BottomChord') if top else ('BottomChord', 'TopChord')
        cs = [k.new(st, PT, own, k.lst(st, left, mid), p0)]
        if chords == 2:
            cs.append(k.new(st, PT, own, k.lst(st, mid, right), self.profile(st, 0)))
        bs = [k.new(st, PT, 'TrussBrace', k.lst(st, mid, u), self.profile(st, i + 1)) for i, u in enumerate(up)]
        if single:
            bs = bs[:1]
        for i, c in enumerate(cs):
            k.raw(st, c, 'NEd', k.dct(st, {k.n(5): N[i] if N else self.N0}))
        for i, b in enumerate(bs):
            k.raw(st, b, 'NEd', k.dct(st, {k.n(5): (self.N1, self.N2)[i]}))
            tc = k.new(st, PT, other, k.lst(st, up[i], ends[i]), self.profile(st, 0))
            k.raw(st, b, 'bottom_joint' if top else 'top_joint', k.new(st, PT, 'TubularYJoint', up[i], k.lst(st, tc), k.lst(st, b)))
        j = k.new(st, PT, 'TubularYJoint' if single else 'TubularKGapJoint', mid, k.lst(st, *cs), k.lst(st, *bs))
        for b in bs:
            k.raw(st, b, 'top_joint' if top else 'bottom_joint', j)
        k.set(st, j, 'N0', self.N0)
        k.set(st, j, 'M0', self.M0)
        k.set(st, j, 'r', self.rr)
        if not single:
            k.set(st, j, 'yloc', n(F(e)))
        return j

    def angles(self, st, e, slope=0):
        """Angles of the braces of the layout."""
        k = self.k
        res = []
        for x, y in ((-1200, 1500), (1700, 1600)):
            res.append(k.sp(st, 'brace_angle', k.n(x), k.n(y), k.n(Fraction(e)), k.n(Fraction(slope))))
        return res


def run(r):
    kgap(r)
    yjoints(r)
    helpers(r)
    face_points(r)


def kgap(r):
    for kind in ('plain', 'truss'):
        w = W(r)
        k = w.k
        C = 'RHSKGapJoint' if kind == 'plain' else 'TubularKGapJoint'
        M = RJ if kind == 'plain' else PT

        def joint(st):
            return w.kgap(st) if kind == 'plain' else w.layout(st, E0)

        def ob(name, code, want, ctx=None, fn=None):
            k.eq('K.%s.%s' % (kind, name), (M, C + '.' + (fn or name.split('.')[0])), RULE, code, want, ctx=ctx or w.ctx, assume=True)

        def th(st):
            return (w.th1, w.th2) if kind == 'plain' else w.angles(st, E0)

        def gap(st):
            return w.g if kind == 'plain' else k.sp(st, 'gap', w.h0, w.h1, w.h2, *th(st), k.n(E0))

        def beta(st):
            return k.sp(st, 'beta_k', k.lst(st, w.b1, w.b2), k.lst(st, w.h1, w.h2), w.b0)

        def kn(st, p):
            return k.sp(st, 'kn', k.sp(st, 'stress_ratio', w.N0, w.M0, k.get(st, p, 'A'), k.items(st, k.get(st, p, 'Wel'))[0], w.fy0, w.g5), beta(st))
        ob('beta', lambda st: (st, k.call(st, joint(st), 'beta')), lambda st: (st, beta(st)))
        ob('gamma', lambda st: (st, k.call(st, joint(st), 'gamma')), lambda st: (st, t.div(w.b0, t.mul(k.n(2), w.t0))))
        ob('eval_KN', lambda st: (st, k.call(st, joint(st), 'eval_KN')), lambda st: (st, kn(st, w.profile(st, 0))))

        def chord(st):
            return w.profile(st, 0)

        def face(st, i):
            return k.sp(st, 'k_chord_face', w.rr, kn(st, chord(st)), w.fy0, w.t0, w.b0, beta(st), th(st)[i], w.g5)
        ob('chord_face_failure', lambda st: (st, k.call(st, joint(st), 'chord_face_failure')), lambda st: (st, k.lst(st, face(st, 0), face(st, 1))))

        def Av(st):
            return k.sp(st, 'k_shear_area', w.h0, w.b0, w.t0, gap(st))
        ob('a_eta', lambda st: (st, k.call(st, joint(st), 'a_eta')), lambda st: (st, Av(st)))

        def shear(st, j):
            return k.call(st, j, 'chord_shear') if kind == 'plain' else k.call(st, j, 'chord_shear', w.V)

        def shear_want(st):
            p = chord(st)
            Vpl = t.div(t.mul(k.items(st, k.get(st, p, 'Ashear'))[1], w.fy0), t.mul(t.power(k.n(3), Fraction(1, 2)), w.g0))
            V = w.V if kind == 'truss' else t.apply(t.abs_, t.mul(w.comp, t.fn('sin', w.rad(w.th1))))
            a = Av(st)
            return st, k.tup(k.lst(st, *[k.sp(st, 'k_shear_brace', w.rr, w.fy0, a, a_, w.g5) for a_ in th(st)]),
                             k.sp(st, 'k_shear_chord', w.rr, w.fy0, k.get(st, p, 'A'), a, V, Vpl, w.g5))

        def shear_code(st):
            j = w.kgap(st, N1=t.neg(w.comp), N2=w.tens) if kind == 'plain' else joint(st)
            return st, shear(st, j)
        ob('chord_shear', shear_code, shear_want)

        def brace(st, i):
            b, h, T, fy = ((w.b1, w.h1, w.t1, w.fy1), (w.b2, w.h2, w.t2, w.fy2))[i]
            return k.sp(st, 'k_brace', w.rr, fy, h, b, T, k.sp(st, 'beff', b, T, fy, w.b0, w.t0, w.fy0), w.g5)
        ob('brace_failure', lambda st: (st, k.call(st, joint(st), 'brace_failure')), lambda st: (st, k.lst(st, brace(st, 0), brace(st, 1))))

        def punch(st, i):
            b, h, T, fy = ((w.b1, w.h1, w.t1, w.fy1), (w.b2, w.h2, w.t2, w.fy2))[i]
            return k.sp(st, 'k_punching', w.rr, w.fy0, w.t0, h, b, k.sp(st, 'bep', b, w.b0, w.t0), th(st)[i], w.g5)
        ob('punching_shear', lambda st: (st, k.call(st, joint(st), 'punching_shear')), lambda st: (st, k.lst(st, punch(st, 0), punch(st, 1))))
        for lo, hi in ((None, 355), (355, 460), (460, None)):
            c = w.ctx
            if lo:
                c = c.with_sign(t.sub(w.fy0, k.n(lo)), 1)
            if hi:
                c = c.with_sign(t.sub(k.n(hi), w.fy0), 2)

            def strength(st):
                j = joint(st)
                k.set(st, j, 'r', k.n(0))
                return st, k.call(st, j, 'strength_reduction')
            ob('strength_reduction.%s' % hi, strength, lambda st: k.sp(st, 'strength', w.fy0, k.n(0)), ctx=c)
        ob('strength_reduction.given', lambda st: (st, k.call(st, joint(st), 'strength_reduction')), lambda st: w.rr)
        if kind == 'plain':
            ob('eccentricity', lambda st: (st, k.call(st, joint(st), 'eccentricity')), lambda st: k.sp(st, 'eccentricity', w.h0, w.h1, w.h2, w.th1, w.th2, w.g))
            for order in (0, 1):
                A, B = (t.neg(w.comp), w.tens) if order == 0 else (w.tens, t.neg(w.comp))

                def forces(st, A=A, B=B):
                    j = w.kgap(st, N1=A, N2=B)
                    return st, k.lst(st, k.get(st, j, 'NEd'), *[k.get(st, j, x) for x in ('N1', 'N2', 'angle1', 'angle2', 'V0gap', 'N0gap')])

                def forces_want(st, order=order):
                    c, s = (w.th1, w.th2) if order == 0 else (w.th2, w.th1)
                    both = [w.comp, w.tens] if order == 0 else [w.tens, w.comp]
                    low = t.add(w.N0, t.mul(w.tens, t.fn('cos', w.rad(s))))
                    high = t.add(w.N0, t.mul(w.comp, t.fn('cos', w.rad(c))))
                    return st, k.lst(st, k.lst(st, *both), w.comp, w.tens, c, s, t.apply(t.abs_, t.mul(w.comp, t.fn('sin', w.rad(c)))),
                                     k.sp(st, 'pick', w.N0, low, high))
                ob('forces.%d' % order, forces, forces_want, fn='N1')
            k.eq('fn.eccentricity', (RJ, 'eccentricity'), RULE, lambda st: k.f(st, RJ, 'eccentricity', w.h0, w.h1, w.h2, w.th1, w.th2, w.g),
                 lambda st: k.sp(st, 'eccentricity', w.h0, w.h1, w.h2, w.th1, w.th2, w.g), ctx=w.ctx)
        else:
            for e, slope, top in ((12, 0, False), (-25, 0, False), (0, 0, False), (30, Fraction(1, 10), False), (-10, Fraction(-1, 20), False), (12, 0, True), (20, Fraction(1, 8), True)):
                def geometry(st, e=e, slope=slope, top=top):
                    j = w.layout(st, e, slope=slope, top=top)
                    return st, k.lst(st, k.get(st, j, 'angles'), k.get(st, j, 'gap'), k.call(st, j, 'eccentricity'))

                def geometry_want(st, e=e, slope=slope, top=top):
                    a = w.angles(st, e, slope)
                    return st, k.lst(st, k.lst(st, *a), k.sp(st, 'gap', w.h0, w.h1, w.h2, *a, k.n(e)), k.n(e))
                ob('calc_gap.%s.%s.%s' % (e, slope, top), geometry, geometry_want)

            for sgn in (1, -1):
                def vgap(st, sgn=sgn):
                    j = w.layout(st, E0)
                    el = k.fake(st, 'metku.framefem.elements.ebbeam', 'EBBeam', 'el', fint=k.dct(st, {k.n(5): k.dct(st, {'fz': k.lst(st, t.mul(k.n(sgn), w.V), t.mul(k.n(Fraction(sgn, 2)), w.V))})}))
                    k.it.setitem(st, k.get(st, j, 'fem_elements'), 'gap', el)
                    return st, k.call(st, j, 'V0gap', k.n(5))
                ob('V0gap.%d' % sgn, vgap, lambda st: w.V)
        design(w, kind, ob, joint)


def design(w, kind, ob, joint):
    """Utilisation from the resistances of the same joint."""
    k = w.k

    def res(st, j, V):
        face = k.items(st, k.call(st, j, 'chord_face_failure'))
        sh = k.call(st, j, 'chord_shear', *V)
        br, pu = k.items(st, k.call(st, j, 'brace_failure')), k.items(st, k.call(st, j, 'punching_shear'))
        si, n0 = k.items(st, sh)
        return face, k.items(st, si), br, pu, n0, k.call(st, j, 'beta'), k.call(st, j, 'gamma')
    if kind == 'plain':
        def code(st):
            return st, k.call(st, w.kgap(st, N1=t.neg(w.comp), N2=w.tens), 'design')

        def want(st):
            j = w.kgap(st, N1=t.neg(w.comp), N2=w.tens)
            f, s, b, p, n0, be, ga = res(st, j, [])
            u = [k.sp(st, 'k_use', N, f[i], s[i], b[i], p[i], be, ga) for i, N in enumerate((w.comp, w.tens))]
            return st, k.lst(st, *u, k.sp(st, 'chord_use', w.N0, n0))
        ob('design', code, want)
    else:
        w = W(w.k.r, fixed=True)
        k = w.k
        V5 = k.n(5)

        def ob(name, code, want):
            k.eq('K.truss.' + name, (PT, 'TubularKGapJoint.design'), RULE, code, want, ctx=w.ctx, assume=True)

        def build(st, N=None, gaps=1, chords=2):
            j = w.layout(st, E0, N=N, chords=chords)
            els = [k.fake(st, 'metku.framefem.elements.ebbeam', 'EBBeam', 'el%d' % i, fint=k.dct(st, {V5: k.dct(st, {'fz': k.lst(st, *vs)})}))
                   for i, vs in enumerate([(w.V, t.neg(w.V)), (t.div(w.V, k.n(2)), t.div(w.V, k.n(-3)))])]
            k.it.setitem(st, k.get(st, j, 'fem_elements'), 'gap', els[0] if gaps == 1 else k.lst(st, els[1], els[0]))
            return j
        for name, gaps, N, chords in (('design', 1, None, 2), ('design.ridge', 2, None, 2), ('design.end', 1, None, 1), ('design.first', 1, (2, 1), 2), ('design.second', 1, (-1, -2), 2)):
            NN = [t.mul(w.comp, k.n(x)) for x in N] if N else None

            def code(st, gaps=gaps, NN=NN, chords=chords):
                j = build(st, NN, gaps, chords)
                u = k.call(st, j, 'design', V5, verb=False)
                return st, k.lst(st, u, k.it.getitem(st, k.get(st, j, 'utilization'), V5))

            def want(st, NN=NN, N=N, chords=chords):
                j = w.layout(st, E0, chords=chords)
                N0 = w.N0 if NN is None else max(zip([abs(x) for x in N], NN), key=lambda x: x[0])[1]
                k.set(st, j, 'N0', N0)
                k.set(st, j, 'M0', k.n(0))
                f, s, b, p, n0, be, ga = res(st, j, [w.V])
                u = [k.sp(st, 'k_use', N, f[i], s[i], b[i], p[i], be, ga) for i, N in enumerate((w.N1, w.N2))]
                u.append(k.sp(st, 'chord_use', N0, n0))
                return st, k.lst(st, k.lst(st, *u), k.sp(st, 'largest', k.lst(st, *u)))
            ob(name, code, want)


def yjoints(r):
    for kind, M, C in (('plain', RJ, 'RHSYJoint'), ('x', RJ, 'RHSXJoint'), ('truss', PT, 'TubularYJoint')):
        w = W(r)
        k = w.k

        def joint(st, N1=None):
            if kind == 'truss':
                j = w.layout(st, E0, single=True)
                k.it.setitem(st, k.get(st, k.items(st, k.get(st, j, 'braces'))[0], 'NEd'), k.n(5), N1 or w.N1)
                return j
            return w.yjoint(st, C, N1=N1 or w.N1)
        load = [k.n(5)] if kind == 'truss' else []
        kd = {} if kind != 'truss' else {'verb': False}

        def ob(name, code, want, ctx=None, fn=None):
            k.eq('Y.%s.%s' % (kind, name), (M, C + '.' + (fn or name.split('.')[0])), RULE, code, want, ctx=ctx or w.ctx, assume=True)

        def th(st):
            if kind == 'truss':
                return k.sp(st, 'brace_angle', k.n(-1200), k.n(1500), k.n(0), k.n(0))
            return w.th1
        # a wall of finite thickness
        base = w.ctx.with_sign(t.sub(w.h0, t.mul(k.n(2), w.t0)), 1)
        beta = t.div(w.b1, w.b0)
        low = base.with_sign(t.sub(beta, k.n(Fraction(17, 20))), -1)
        high = base.with_sign(t.sub(beta, k.n(Fraction(17, 20))), 2)

        def kn(st):
            p = w.profile(st, 0)
            return k.sp(st, 'kn', k.sp(st, 'stress_ratio', w.N0, w.M0, k.get(st, p, 'A'), k.items(st, k.get(st, p, 'Wel'))[0], w.fy0, w.g5), beta)
        ob('beta', lambda st: (st, k.lst(st, k.call(st, joint(st), 'beta'), k.call(st, joint(st), 'gamma'), k.get(st, joint(st), 'eta'))),
           lambda st: (st, k.lst(st, beta, t.div(w.b0, t.mul(k.n(2), w.t0)), t.div(w.h1, w.b0))))
        ob('eval_KN', lambda st: (st, k.call(st, joint(st), 'eval_KN')), lambda st: (st, kn(st)))

        def face(st):
            return k.sp(st, 'y_chord_face', w.rr, kn(st), w.fy0, w.t0, beta, t.div(w.h1, w.b0), th(st), w.g5)
        for nm, c in (('low', low), ('high', high)):
            ob('chord_face_failure.' + nm, lambda st: (st, k.call(st, joint(st), 'chord_face_failure')), lambda st: (st, face(st)), ctx=c)

        def slend(st):
            return k.sp(st, 'slenderness', w.h0, w.t0, th(st), w.fy0, w.E)
        ob('slend', lambda st: (st, k.call(st, joint(st), 'slend')), lambda st: (st, slend(st)), ctx=base)

        def wall_strength(st, N1):
            p = w.profile(st, 0)
            c = k.sp(st, 'chi', slend(st), k.items(st, k.get(st, p, 'imp_factor'))[0])
            if kind == 'x':
                return k.sp(st, 'x_side_wall_strength', N1, w.fy0, c, th(st))
            return k.sp(st, 'y_side_wall_strength', N1, w.fy0, c)

        def wall(st, N1):
            p = w.profile(st, 0)
            v = k.sp(st, 'side_wall', w.rr, kn(st), wall_strength(st, N1), w.t0, w.h1, th(st), w.g5)
            if kind == 'x':
                v = k.sp(st, 'x_side_wall', w.rr, v, w.h1, w.h0, w.fy0, k.items(st, k.get(st, p, 'Ashear'))[1], th(st), w.g5)
            return v
        for nm, N in (('compression', t.neg(w.comp)), ('tension', w.tens)):
            ob('fb.' + nm, lambda st, N=N: (st, k.call(st, joint(st, N), 'fb', *load)), lambda st, N=N: (st, wall_strength(st, N)), ctx=base)
            ob('chord_web_buckling.' + nm, lambda st, N=N: (st, k.call(st, joint(st, N), 'chord_web_buckling', *load)), lambda st, N=N: (st, wall(st, N)), ctx=base)
        ob('brace_failure', lambda st: (st, k.call(st, joint(st), 'brace_failure')),
           lambda st: (st, k.sp(st, 'y_brace', w.rr, w.fy1, w.h1, w.t1, k.sp(st, 'beff', w.b1, w.t1, w.fy1, w.b0, w.t0, w.fy0), w.g5)))
        ob('punching_shear', lambda st: (st, k.call(st, joint(st), 'punching_shear')),
           lambda st: (st, k.sp(st, 'y_punching', w.rr, w.fy0, w.t0, w.h1, k.sp(st, 'bep', w.b1, w.b0, w.t0), th(st), w.g5)))
        for lo, hi in ((None, 355), (355, 460), (460, None)):
            c = w.ctx
            if lo:
                c = c.with_sign(t.sub(w.fy0, k.n(lo)), 1)
            if hi:
                c = c.with_sign(t.sub(k.n(hi), w.fy0), 2)

            def strength(st):
                j = joint(st)
                k.set(st, j, 'r', k.n(0))
                return st, k.call(st, j, 'strength_reduction')
            ob('strength_reduction.%s' % hi, strength, lambda st: k.sp(st, 'strength', w.fy0, k.n(0)), ctx=c)
        punch = t.sub(t.add(beta, t.div(t.mul(k.n(2), w.t0), w.b0)), k.n(1))
        for nm, c in (('face', low), ('wall', high.with_sign(punch, 1)), ('punch', high.with_sign(punch, -2))):
            for sg, N in (('compression', t.neg(w.comp)), ('tension', w.tens)):
                def code(st, N=N):
                    return st, k.call(st, joint(st, N), 'design', *load, **kd)

                def want(st, N=N):
                    j = joint(st, N)
                    if kind == 'truss':
                        k.set(st, j, 'M0', w.M0)
                    args = [k.call(st, j, 'chord_face_failure'), k.call(st, j, 'chord_web_buckling', *load), k.call(st, j, 'brace_failure'), k.call(st, j, 'punching_shear')]
                    Rd = k.sp(st, 'y_governing', beta, k.call(st, j, 'gamma'), *args)
                    return st, t.apply(t.div, t.apply(t.abs_, N), Rd)
                ob('design.%s.%s' % (nm, sg), code, want, ctx=c)
        if kind == 'truss':
            for nm, N in (('first', (3, -2)), ('second', (1, -2)), ('one', (2,))):
                NN = [t.mul(w.comp, k.n(x)) for x in N]

                def chord(st, NN=NN, N=N):
                    j = w.layout(st, E0, single=True, N=NN, chords=len(N))
                    u = k.call(st, j, 'design', k.n(5), verb=False)
                    return st, k.lst(st, k.get(st, j, 'N0'), u)

                def chord_want(st, NN=NN, N=N):
                    j = w.layout(st, E0, single=True, chords=len(N))
                    N0 = max(zip([abs(x) for x in N], NN), key=lambda x: x[0])[1]
                    k.set(st, j, 'N0', N0)
                    return st, k.lst(st, N0, t.apply(t.div, t.apply(t.abs_, w.N1), k.call(st, j, 'chord_face_failure')))
                ob('chord.' + nm, chord, chord_want, ctx=low, fn='design')
        else:
            for nm, N in (('compression', t.neg(w.comp)), ('tension', w.tens), ('any', w.N1)):
                ob('N1.' + nm, lambda st, N=N: (st, k.get(st, joint(st, N), 'N1')), lambda st, N=N: N)


def helpers(r):
    w = W(r)
    k = w.k

    def ob(name, fn, code, want, ctx=None):
        k.eq('H.' + name, (RJ, fn), RULE, code, want, ctx=ctx or w.ctx, assume=True)
    x1, y1, x2, y2, x3, y3, x4, y4 = k.ss('x1 y1 x2 y2 x3 y3 x4 y4', '?')

    def V(st, x, y):
        return k.nd(st, (2,), [x, y])
    cr = t.sub(t.mul(x1, y2), t.mul(y1, x2))
    c = w.ctx.with_sign(cr, 3)

    def line(st, x, y, p, q):
        return k.new(st, RJ, 'Line', p1=V(st, p, q), v=V(st, x, y))

    def cross(st):
        a, b = line(st, x1, y1, x3, y3), line(st, x2, y2, x4, y4)
        return st, k.items(st, k.call(st, a, 'intersect', b))[1]

    ob('intersect', 'Line.intersect', cross, lambda st: k.sp(st, 'line_cross', x1, y1, x3, y3, x2, y2, x4, y4), ctx=c)

    def unit(st):
        a = k.new(st, RJ, 'Line', p1=V(st, x1, y1), p2=V(st, x2, y2))
        return st, k.lst(st, k.get(st, a, 'v'), k.call(st, a, '__call__', x3))
    ob('line', 'Line.__init__', unit, lambda st: k.sp(st, 'line_unit', x1, y1, x2, y2, x3), ctx=w.ctx.with_sign(t.sub(x1, x2), 3))

    def near(st):
        a = k.new(st, RJ, 'Line', p1=V(st, x3, y3), v=V(st, t.fn('cos', x1), t.fn('sin', x1)))
        return st, k.items(st, k.call(st, a, 'distance', V(st, x4, y4)))[1]
    ob('distance', 'Line.distance', near, lambda st: k.sp(st, 'nearest', t.fn('cos', x1), t.fn('sin', x1), x3, y3, x4, y4))
    ob('rotate', 'rotate', lambda st: k.f(st, RJ, 'rotate', V(st, x1, y1), w.th1), lambda st: k.sp(st, 'rotated', x1, y1, w.th1))
    lp, bp, tp = k.ss('lp bp tp')

    def plate(st):
        j = w.kgap(st)
        k.call(st, j, 'add_chord_face_plate', lp, bp, tp)
        p = k.get(st, j, 'chord_face_plate')
        return st, k.lst(st, *[k.it.getitem(st, p, x) for x in ('lp', 'bp', 'tp')])
    ob('plate', 'RHSKGapJoint.add_chord_face_plate', plate, lambda st: k.sp(st, 'face_plate', lp, bp, tp, w.b0, w.t0, w.h1, w.h2, w.t1, w.t2, w.th1, w.th2, w.g))


def face_points(r):
    """Points of a truss joint that the structural model takes."""
    w = W(r)
    k = w.k
    for e, slope, top in ((12, 0, False), (-25, 0, False), (30, Fraction(1, 10), False), (12, 0, True), (20, Fraction(1, 8), True)):
        def code(st, e=e, slope=slope, top=top):
            j = w.layout(st, e, slope=slope, top=top)
            d = k.call(st, j, 'brace_chord_face_x')
            xi, xc = k.items(st, d)
            bs = k.items(st, k.get(st, j, 'braces'))
            cs = k.items(st, k.get(st, j, 'chords'))
            return st, k.lst(st, k.get(st, j, 'xp_coord'), k.call(st, j, 'xc_face'), k.call(st, j, 'xchord'), *[k.it.getitem(st, xi, b) for b in bs] + [k.it.getitem(st, xc, c) for c in cs])

        def want(st, e=e, slope=slope, top=top):
            return st, k.sp(st, 'face_points', k.n(Fraction(e)), k.n(Fraction(slope)), k.n(-1 if top else 1), w.h0, k.lst(st, *[k.tup(k.n(x), k.n(y)) for x, y in ((-1200, 1500), (1700, 1600))]))
        k.eq('P.%s.%s.%s' % (e, slope, top), (PT, 'TubularKGapJoint.brace_chord_face_x'), RULE, code, want, ctx=w.ctx, assume=True)
    E1, E2 = k.ss('e1 e2', '?')
    for order in (0, 1):
        def moved(st, order=order):
            j = w.layout(st, 0)
            q = w.layout(st, 0)
            k.raw(st, j, 'sym_joint', q)
            for a, v in [('xloc', E1), ('yloc', E2)][::1 if order else -1]:
                k.set(st, j, a, v)
            return st, k.lst(st, k.get(st, j, 'xp_coord'), k.get(st, q, 'xp_coord'), k.get(st, j, 'yloc'), k.get(st, q, 'yloc'), k.get(st, q, 'xloc'))
        k.eq('P.moved.%d' % order, (PT, 'TubularKGapJoint.yloc'), RULE, moved,
             lambda st: (st, k.lst(st, k.nd(st, (2,), [E1, t.neg(E2)]), k.nd(st, (2,), [t.neg(E1), t.neg(E2)]), E2, E2, t.neg(E1))), ctx=w.ctx, assume=True)
