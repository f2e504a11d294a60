"""C16: translation of a frame into its finite element model and of the results back."""
import ast
from fractions import Fraction

from ..kit import Kit
from .. import interp as I
from .. import terms as t
from ..core import Undecided

EXPLAIN = ('Finite element nodes, elements, sections, releases, supports and load vectors generated from frames of fixed topology with '
           'symbolic coordinates, sections and loads, before and after histories of changes (moved nodes, new sections, hinges, load '
           'combinations, self-weight, regeneration), and the member forces, displacements and utilisations read back, compared with a '
           'reference description of the frame.')
RULE = 'finite element model and results describe the frame'
RA = 'metku.raami.raami'
FM = 'metku.raami.frame_member'
FN = 'metku.raami.frame_node'
FL = 'metku.raami.frame_loads'
FS = 'metku.raami.frame_supports'
CASE = 3


class World:
    """Frame under construction."""

    def __init__(self, k, st, pts, members, supports=(), dim=2, steel=True, late=()):
        self.k, self.st = k, st
        self.f = k.new(st, RA, 'Raami')
        if dim == 3:
            k.set(st, self.f, 'dim', k.n(3))
        self.nodes = [k.new(st, FN, 'FrameNode', k.lst(st, *p)) for p in pts]
        for n in self.nodes:
            k.call(st, self.f, 'add', n)
        self.secs, self.mems = [], []
        for n, (i, j, kw) in enumerate(members):
            self.secs.append(self.section('%d' % n))
            kw = {a: (k.lst(st, *b) if isinstance(b, list) else b) for a, b in kw.items()}
            cls = kw.pop('cls', 'SteelFrameMember')
            m = k.new(st, FM, cls, k.lst(st, self.nodes[i], self.nodes[j]), self.secs[-1], **kw)
            self.mems.append(m)
            k.call(st, self.f, 'add', m)
        for cls, i in supports:
            k.call(st, self.f, 'add', k.new(st, FS, cls, self.nodes[i]))

    def section(self, tag):
        k = self.k
        sec = k.fake(self.st, 'metku.sections.steel.RHS', 'RHS', 'sec' + tag, A=k.s('A' + tag),
                     I=k.lst(self.st, k.s('Iy' + tag), k.s('Iz' + tag)))
        k.strength(self.st, sec, E=k.s('E' + tag), rho=k.s('rho' + tag))
        return sec

    def generate(self, times=1):
        for _ in range(times):
            self.k.call(self.st, self.f, 'generate_fem')
        return self

    # what an analysis of the model depends on
    def fem(self, path):
        return self.k.get(self.st, self.f, 'fem.' + path)

    def coords(self):
        k, st = self.k, self.st
        return k.lst(st, *[k.lst(st, *k.items(st, k.get(st, n, 'coord'))) for n in k.items(st, self.fem('nodes'))])

    def elements(self):
        k, st = self.k, self.st
        nodes = k.items(st, self.fem('nodes'))
        out = []
        for e in k.items(st, self.fem('elements')):
            out.append((st.get(e).cls.name, [nodes.index(n) for n in k.items(st, k.get(st, e, 'nodes'))]))
        return out

    def connectivity(self):
        k, st = self.k, self.st
        return k.lst(st, *[k.lst(st, c, *[k.n(i) for i in ns]) for c, ns in self.elements()])

    def stiffness(self):
        """Axial and bending stiffness and releases of every element."""
        k, st = self.k, self.st
        out = []
        for e in k.items(st, self.fem('elements')):
            row = [t.mul(k.get(st, e, 'material.E'), k.get(st, e, 'section.A'))]
            row.append(k.it.getitem(st, k.get(st, e, 'section.I'), t.ZERO))
            out.append(k.lst(st, *row))
        return k.lst(st, *out)

    def releases(self):
        k, st = self.k, self.st
        out = []
        for e in k.items(st, self.fem('elements')):
            v = [int(x.value()) if hasattr(x, 'value') else x for x in k.items(st, k.get(st, e, 'releases'))]
            out.append(k.lst(st, *v))
        return k.lst(st, *out)

    def load(self, case):
        k, st = self.k, self.st
        return k.call(st, k.get(st, self.f, 'fem'), 'global_load_vector', k.n(case))

    def add(self, mod, cls, *args, **kw):
        o = self.k.new(self.st, mod, cls, *args, **kw)
        self.k.call(self.st, self.f, 'add', o)
        return o


def run(r):
    k = Kit(r, 'frame')
    k.it.exact_round = 3
    n = k.n
    Z = t.ZERO
    a, b, h, L = k.ss('a b h L')
    x0, y0, z0, x1, y1, z1, x2, y2, z2, x3, y3, u, v = [k.s(m, '?') for m in 'x0 y0 z0 x1 y1 z1 x2 y2 z2 x3 y3 u v'.split()]
    q, q1, q2, g1, w1, p1, p2, p3 = [k.s(m, '?') for m in 'q q1 q2 g1 w1 p1 p2 p3'.split()]
    lam = k.s('lam')
    wg = (FM, 'FrameMember.generate_elements')

    def pt(st, *p):
        return k.lst(st, *p)

    # ------------------------------------------------ geometry and connectivity
    PTS = [(x0, y0), (x1, y1), (x2, y2), (x3, y3)]
    MEMBERS = [(0, 1, dict(mem_type='column', nel=n(2))), (1, 2, dict(mem_type='beam', nel=n(3))),
               (3, 2, dict(mem_type='column', nel=n(1))), (3, 1, dict(mem_type='brace', nel=n(1)))]
    SUPP = [('FixedSupport', 0), ('XYHingedSupport', 3), ('YHingedSupport', 2), ('XHingedSupport', 1)]
    CONN = [('EBBeam', 0, 4), ('EBBeam', 4, 1), ('EBBeam', 1, 5), ('EBBeam', 5, 6), ('EBBeam', 6, 2), ('EBBeam', 3, 2), ('Rod', 3, 1)]

    def apart(k):
        c = t.Ctx()
        for (i, j, _) in MEMBERS:
            d = [t.sub(s, e) for s, e in zip(PTS[i], PTS[j])]
            c = c.with_sign(t.add(t.mul(d[0], d[0]), t.mul(d[1], d[1])), 1)
        return c

    def all_points(st, pts, members):
        out = list(pts)
        for i, j, kw in members:
            m = k.items(st, k.sp(st, 'divide', pt(st, *pts[i]), pt(st, *pts[j]), kw['nel']))
            out += [k.items(st, p) for p in m[1:-1]]
        return k.lst(st, *[pt(st, *p) for p in out])

    for times in (1, 2):
        sfx = '' if times == 1 else '.again'
        k.eq('nodes.plane' + sfx, wg, RULE, lambda st, m=times: (st, World(k, st, PTS, MEMBERS).generate(m).coords()),
             lambda st: all_points(st, PTS, MEMBERS), apart)
        k.eq('elements.plane' + sfx, wg, RULE, lambda st, m=times: (st, World(k, st, PTS, MEMBERS).generate(m).connectivity()),
             lambda st: k.lst(st, *[k.lst(st, c, n(i), n(j)) for c, i, j in CONN]))

        def sections(st, m=times):
            return st, World(k, st, PTS, MEMBERS).generate(m).stiffness()

        def tags(st):
            w = []
            for i, nel in enumerate((2, 3, 1, 1)):
                w += [k.lst(st, t.mul(k.s('E%d' % i), k.s('A%d' % i)), k.s('Iy%d' % i))] * nel
            return k.lst(st, *w)
        k.eq('sections.plane' + sfx, wg, RULE, sections, tags)

        def supports(st, m=times):
            wd = World(k, st, PTS, MEMBERS, SUPP).generate(m)
            fem = k.get(st, wd.f, 'fem')
            k.call(st, fem, 'supported_dofs')
            return st, k.lst(st, k.get(st, fem, 'dofs'), *k.items(st, k.get(st, fem, 'supp_dofs')))
        k.eq('supports.plane' + sfx, (RA, 'Raami.generate_fem'), RULE, supports,
             lambda st: k.lst(st, *[n(i) for i in (21, 0, 1, 2, 9, 10, 7, 3)]))
    P3 = [(x0, y0, z0), (x1, y1, z1), (x2, y2, z2)]
    M3 = [(0, 1, dict(mem_type='column', nel=n(2))), (1, 2, dict(mem_type='beam', nel=n(3))), (2, 0, dict(mem_type='bar', nel=n(1)))]

    def apart3(k):
        c = t.Ctx()
        for (i, j, _) in M3:
            c = c.with_sign(t.add(t.ZERO, sumsq([t.sub(s, e) for s, e in zip(P3[i], P3[j])])), 1)
        return c
    k.eq('nodes.space', wg, RULE, lambda st: (st, World(k, st, P3, M3, dim=3).generate().coords()),
         lambda st: all_points(st, P3, M3), apart3)
    k.eq('elements.space', wg, RULE, lambda st: (st, World(k, st, P3, M3, dim=3).generate().connectivity()),
         lambda st: k.lst(st, *[k.lst(st, c, n(i), n(j)) for c, i, j in
                                (('EBBeam3D', 0, 3), ('EBBeam3D', 3, 1), ('EBBeam3D', 1, 4), ('EBBeam3D', 4, 5), ('EBBeam3D', 5, 2), ('Rod', 2, 0))]))

    # ------------------------------------------------ hinges
    LINE = [(Z, Z), (a, Z), (t.add(a, b), Z)]

    def hinged(hinges, nels, how='arg', chord='beam'):
        def go(st):
            ms = []
            for i, (hg, nel) in enumerate(zip(hinges, nels)):
                kw = dict(mem_type=chord, nel=n(nel))
                if how == 'arg':
                    kw['hinges'] = [bool(x) for x in hg]
                ms.append((i, i + 1, kw))
            w = World(k, st, LINE, ms)
            if how == 'method':
                for m, hg in zip(w.mems, hinges):
                    for loc in (0, 1):
                        if hg[loc]:
                            k.call(st, m, 'add_hinge', n(loc))
            return st, w.generate().releases()
        return go

    def released(hinges, nels):
        def go(st):
            out = []
            for hg, nel in zip(hinges, nels):
                for e in range(nel):
                    out.append(k.lst(st, *([n(2)] if hg[0] and e == 0 else []), *([n(5)] if hg[1] and e == nel - 1 else [])))
            return k.lst(st, *out)
        return go
    for how in ('arg', 'method'):
        for hs, nels in ((((1, 0), (0, 1)), (2, 3)), (((0, 1), (0, 0)), (1, 2)), (((1, 1), (0, 0)), (3, 1)), (((1, 1), (1, 0)), (1, 2)),
                         (((0, 0), (1, 1)), (2, 1))):
            k.eq('hinges.%s.%s.%s' % (how, hs, nels), (FM, 'FrameMember.generate_elements'), RULE, hinged(hs, nels, how), released(hs, nels))

    # ------------------------------------------------ loads
    T35, T45 = t.num(Fraction(3, 5)), t.num(Fraction(4, 5))
    RAF = [(Z, Z), (t.mul(T35, L), t.mul(T45, L)), (t.add(t.mul(T35, L), t.mul(T45, b)), t.sub(t.mul(T45, L), t.mul(T35, b)))]
    RM = [(0, 1, dict(nel=n(3))), (2, 1, dict(nel=n(2)))]
    D0 = [0, 1, 2, 9, 10, 11, 12, 13, 14, 3, 4, 5]
    D1 = [6, 7, 8, 15, 16, 17, 3, 4, 5]

    def rafters(st):
        return World(k, st, RAF, RM)

    def gather(st, parts):
        """Reference load vector from (member, load part) pairs and nodal forces."""
        vs, ds = [], []
        for kind, val in parts:
            vs.append(val)
            ds.append(k.lst(st, *[n(i) for i in (D0 if kind == 0 else D1 if kind == 1 else kind)]))
        return k.sp(st, 'vector', n(18), k.lst(st, *vs), k.lst(st, *ds))

    def lin(st, m, d, coords, v1, v2):
        A, B = (RAF[0], RAF[1]) if m == 0 else (RAF[2], RAF[1])
        return (m, k.sp(st, 'varying', d, coords, v1, v2, pt(st, *A), pt(st, *B), RM[m][2]['nel']))

    def nodal(st, i, *f):
        return ([3 * i, 3 * i + 1, 3 * i + 2], k.lst(st, *f))

    def scaled(f, c):
        return [t.mul(c, x) for x in f]

    wl = (RA, 'Raami.generate_fem')
    for d in 'xy':
        for coords in ('global', 'local'):
            for m in (0, 1):
                def code(st, d=d, coords=coords, m=m):
                    w = rafters(st)
                    w.add(FL, 'LineLoad', w.mems[m], k.lst(st, q1, q2), d, load_id=n(CASE), f=lam, coord_sys=coords)
                    w.generate()
                    return st, w.load(CASE)
                k.eq('load.line.%d.%s.%s' % (m, d, coords), (FL, 'LineLoad.add_load'), RULE, code,
                     lambda st, d=d, coords=coords, m=m: gather(st, [lin(st, m, d, coords, t.mul(lam, q1), t.mul(lam, q2))]))

    def point(st):
        w = rafters(st)
        w.add(FL, 'PointLoad', w.nodes[1], k.lst(st, p1, p2, p3), load_id=n(CASE), f=lam)
        w.add(FL, 'PointLoad', w.nodes[1], k.lst(st, q1, q2, q), load_id=n(CASE))
        w.add(FL, 'PointLoad', w.nodes[0], k.lst(st, q1, q2, q), load_id=n(CASE + 1))
        w.generate()
        return st, k.lst(st, w.load(CASE), w.load(CASE + 1))
    k.eq('load.point', (FL, 'PointLoad.add_load'), RULE, point,
         lambda st: k.lst(st, gather(st, [nodal(st, 1, *scaled((p1, p2, p3), lam)), nodal(st, 1, q1, q2, q)]), gather(st, [nodal(st, 0, q1, q2, q)])))

    # piecewise constant loads on the four elements of a column, a rafter and members drawn from right to left
    rel = k.s('c')
    for nm, A, B in (('beam', (Z, Z), (L, Z)), ('reversed', (L, Z), (Z, Z)), ('column', (a, Z), (a, L)), ('down', (a, L), (a, Z)),
                     ('rafter', RAF[1], RAF[0])):
        for div, where, d, coords in ((Fraction(1, 4), 'node', 'y', 'global'), (Fraction(1, 2), 'middle', 'y', 'global'), (Fraction(3, 4), 'late', 'y', 'global'),
                                      (Fraction(1), 'end', 'y', 'global'), (Fraction(1, 2), 'local', 'y', 'local'), (Fraction(1, 4), 'axial', 'x', 'local'),
                                      (Fraction(3, 4), 'horizontal', 'x', 'global')):
            def code(st, A=A, B=B, div=div, d=d, coords=coords):
                w = World(k, st, [A, B], [(0, 1, dict(nel=n(4)))])
                w.add(FL, 'PWLineLoad', w.mems[0], k.lst(st, q1, q2), n(div), d, load_id=n(CASE), f=lam, coord_sys=coords)
                w.generate()
                return st, w.load(CASE)

            def want(st, A=A, B=B, div=div, d=d, coords=coords):
                vals = [t.mul(lam, q1 if i < 4 * div else q2) for i in range(4)]
                v_ = k.sp(st, 'stepwise', d, coords, k.lst(st, *vals), pt(st, *A), pt(st, *B))
                return k.sp(st, 'vector', n(15), k.lst(st, v_), k.lst(st, k.lst(st, *[n(i) for i in (0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 14, 3, 4, 5)])))
            k.eq('load.piecewise.%s.%s' % (nm, where), (FL, 'PWLineLoad.add_load'), RULE, code, want)

    # every load once: equal names, load cases given as such, deleted and recombined loads
    def same_names(st):
        w = rafters(st)
        w.add(FL, 'LineLoad', w.mems[0], k.lst(st, q1, q2), 'y', load_id=n(CASE))
        w.add(FL, 'LineLoad', w.mems[1], k.lst(st, q, q), 'y', load_id=n(CASE))
        w.add(FL, 'LineLoad', w.mems[0], k.lst(st, p1, p1), 'x', load_id=n(CASE))
        w.add(FL, 'PointLoad', w.nodes[1], k.lst(st, p1, p2, p3), load_id=n(CASE))
        w.generate()
        return st, w.load(CASE)

    def same_want(st):
        return gather(st, [lin(st, 0, 'y', 'global', q1, q2), lin(st, 1, 'y', 'global', q, q), lin(st, 0, 'x', 'global', p1, p1), nodal(st, 1, p1, p2, p3)])
    k.eq('loads.same_names', (RA, 'Raami.add_lineload'), RULE, same_names, same_want)

    def by_case(order):
        def go(st):
            w = rafters(st)
            ls = [k.new(st, FL, 'LineLoad', w.mems[0], k.lst(st, q1, q2), 'y'), k.new(st, FL, 'LineLoad', w.mems[1], k.lst(st, q, q), 'y'),
                  k.new(st, FL, 'LineLoad', w.mems[0], k.lst(st, p1, p1), 'x'), k.new(st, FL, 'PointLoad', w.nodes[1], k.lst(st, p1, p2, p3))]
            if order == 'before':
                for l in ls[:2]:
                    k.raw(st, l, 'load_id', n(CASE))
                    k.call(st, w.f, 'add', l)
            k.call(st, w.f, 'add', k.new(st, FL, 'LoadCase', n(CASE), k.lst(st, *ls)))
            w.generate()
            return st, k.lst(st, w.load(CASE), k.get(st, w.f, 'load_ids'))
        return go
    for order in ('case', 'before'):
        k.eq('loads.case.%s' % order, (RA, 'Raami.add_loadcase'), RULE, by_case(order), lambda st: k.lst(st, same_want(st), k.lst(st, n(CASE))))

    KIN = {'dead': (lambda st: [lin(st, 0, 'y', 'global', g1, g1), lin(st, 1, 'y', 'global', g1, g1)]),
           'snow': (lambda st: [lin(st, 0, 'y', 'global', t.mul(lam, q1), t.mul(lam, q2))]),
           'wind': (lambda st: [lin(st, 1, 'y', 'local', w1, w1), nodal(st, 1, p1, p2, p3)]),
           'live': (lambda st: [nodal(st, 2, q1, q2, q)])}

    def kinds(st, w):
        for m in (0, 1):
            w.add(FL, 'LineLoad', w.mems[m], k.lst(st, g1, g1), 'y', load_id=n(0), ltype='dead')
        w.add(FL, 'LineLoad', w.mems[0], k.lst(st, q1, q2), 'y', load_id=n(1), ltype='snow', f=lam)
        w.add(FL, 'LineLoad', w.mems[1], k.lst(st, w1, w1), 'y', load_id=n(2), ltype='wind', coord_sys='local')
        w.add(FL, 'PointLoad', w.nodes[1], k.lst(st, p1, p2, p3), load_id=n(2), ltype='wind')
        w.add(FL, 'PointLoad', w.nodes[2], k.lst(st, q1, q2, q), load_id=n(4), ltype='live')

    ORDERS = {'dead,snow,wind': (0, 1, 2), 'live,dead,snow': (4, 0, 1), 'wind,snow,live,dead': (2, 1, 4, 0), 'dead': (0,), 'dead,wind': (0, 2)}
    OF = {0: 'dead', 1: 'snow', 2: 'wind', 4: 'live'}

    def combined(ids, comb, times=1, more=False):
        def go(st):
            w = rafters(st)
            kinds(st, w)
            lc = k.get(st, w.f, 'load_cases')
            c = w.add(FL, 'LoadCombination', n(9), comb, k.lst(st, *[k.it.getitem(st, lc, n(i)) for i in ids]))
            for _ in range(times - 1):
                k.call(st, c, 'combine_loads')
            if more:
                w.add(FL, 'PointLoad', w.nodes[0], k.lst(st, p1, p2, p3), load_id=n(1), ltype='snow')
                k.call(st, c, 'combine_loads')
            w.generate()
            return st, k.lst(st, w.load(9), w.load(1))
        return go

    def combined_want(ids, comb, more=False):
        def go(st):
            parts, lead = [], next((i for i in ids if OF[i] != 'dead'), None)
            for i in ids:
                c = k.sp(st, 'factor', comb, OF[i], i == lead)
                ps = KIN[OF[i]](st) + ([nodal(st, 0, p1, p2, p3)] if more and i == 1 else [])
                for where, val in ps:
                    parts.append((where, k.lst(st, *[t.mul(c, x) for x in k.items(st, val)])))
            own = KIN['snow'](st) + ([nodal(st, 0, p1, p2, p3)] if more else [])
            return k.lst(st, gather(st, parts), gather(st, own))
        return go
    wc = (FL, 'LoadCombination.combine_loads')
    for nm, ids in ORDERS.items():
        for comb in ('ULS', 'SLS_Characteristic'):
            k.eq('combination.%s.%s' % (nm, comb), wc, RULE, combined(ids, comb), combined_want(ids, comb))
    k.eq('combination.again', wc, RULE, combined(ORDERS['dead,snow,wind'], 'ULS', 3), combined_want(ORDERS['dead,snow,wind'], 'ULS'))
    k.eq('combination.more', wc, RULE, combined(ORDERS['wind,snow,live,dead'], 'ULS', 1, True), combined_want(ORDERS['wind,snow,live,dead'], 'ULS', True))

    def two_combinations(st):
        w = rafters(st)
        kinds(st, w)
        lc = k.get(st, w.f, 'load_cases')
        cs = []
        for i, ids in ((8, (0, 1, 2)), (9, (0, 2, 1))):
            cs.append(w.add(FL, 'LoadCombination', n(i), 'ULS', k.lst(st, *[k.it.getitem(st, lc, n(j)) for j in ids])))
        k.call(st, cs[0], 'combine_loads')
        w.generate()
        return st, k.lst(st, w.load(8), w.load(9))
    k.eq('combination.two', wc, RULE, two_combinations,
         lambda st: k.lst(st, *[k.it.getitem(st, combined_want(ids, 'ULS')(st), Z) for ids in ((0, 1, 2), (0, 2, 1))]))

    # self-weight
    def weighted(steps):
        def go(st):
            w = rafters(st)
            w.add(FL, 'LineLoad', w.mems[0], k.lst(st, q1, q2), 'y', load_id=n(100), name='self-weight')
            for s in steps:
                if s == '+':
                    k.call(st, w.f, 'add_self_weight')
                elif s == '-':
                    k.call(st, w.f, 'remove_self_weight')
                elif s == 's':
                    k.set(st, w.mems[1], 'cross_section', w.section('new'))
                elif s == 'g':
                    w.generate()
            w.generate()
            return st, k.lst(st, w.load(100), k.call(st, w.f, 'weight'))
        return go

    def weight_want(on, tag='1'):
        def go(st):
            w = rafters(st)
            secs = [w.secs[0], w.section(tag)]
            parts = [lin(st, 0, 'y', 'global', q1, q2)]
            total = Z
            for m, s in enumerate(secs):
                sw = k.call(st, s, 'self_weight')
                total = t.add(total, t.mul(t.mul(k.get(st, s, 'A'), k.get(st, s, 'density')), L if m == 0 else b))
                if on:
                    parts.append(lin(st, m, 'y', 'global', t.neg(sw), t.neg(sw)))
            return k.lst(st, gather(st, parts), total)
        return go
    ww = (RA, 'Raami.add_self_weight')
    for steps, on, tag in (('+', 1, '1'), ('++', 1, '1'), ('+-', 0, '1'), ('+-+', 1, '1'), ('+gs+', 1, 'new'), ('-+g+', 1, '1'), ('s-', 0, 'new')):
        k.eq('self_weight.%s' % steps, ww, RULE, weighted(steps), weight_want(on, tag))

    # ------------------------------------------------ changes of the frame after its model exists
    def moved(st, ops, cls='SteelFrameMember'):
        ms = [(i, j, dict(kw, cls=cls)) for i, j, kw in MEMBERS[:3]]
        w = World(k, st, PTS, ms)
        w.generate()
        for i, c, val in ops:
            k.set(st, w.nodes[i], c, val)
        lens = [k.get(st, m, 'member.length') if cls == 'SteelFrameMember' else k.call(st, m, 'length') for m in w.mems]
        return st, k.lst(st, w.coords(), *[k.call(st, m, 'length') for m in w.mems], *lens)

    def moved_want(st, pts):
        ls = []
        for i, j, _ in MEMBERS[:3]:
            ls.append(t.power(sumsq([t.sub(e, s) for s, e in zip(pts[i], pts[j])]), Fraction(1, 2)))
        return k.lst(st, all_points(st, pts, MEMBERS[:3]), *ls, *ls)

    for nm, ops, pts in (('x', [(1, 'x', u)], [PTS[0], (u, y1), PTS[2], PTS[3]]), ('y', [(1, 'y', v)], [PTS[0], (x1, v), PTS[2], PTS[3]]),
                         ('xy', [(2, 'x', u), (0, 'y', v)], [(x0, v), PTS[1], (u, y2), PTS[3]])):
        def distinct(k, pts=pts):
            c = apart(k)
            for (i, j, _) in MEMBERS:
                c = c.with_sign(sumsq([t.sub(s, e) for s, e in zip(pts[i], pts[j])]), 1)
            return c
        for cls in ('SteelFrameMember', 'FrameMember'):
            k.eq('moved.%s.%s' % (nm, cls), (FN, 'FrameNode.%s' % nm[0]), RULE, lambda st, ops=ops, cls=cls: moved(st, ops, cls),
                 lambda st, pts=pts: moved_want(st, pts), distinct)

    def integer(st):
        nd = k.new(st, FN, 'FrameNode', k.lst(st, n(0), n(2)))
        k.set(st, nd, 'x', n(Fraction(5, 2)))
        return st, k.lst(st, k.get(st, nd, 'x'), k.get(st, nd, 'y'))
    k.eq('moved.integer', (FN, 'FrameNode.__init__'), RULE, integer, lambda st: k.lst(st, n(Fraction(5, 2)), n(2)))

    def own_copy(st):
        xs = k.lst(st, x0, y0)
        arr = k.nd(st, (2,), [x0, y0])
        nd = [k.new(st, FN, 'FrameNode', c) for c in (xs, arr)]
        for d in nd:
            k.set(st, d, 'x', u)
        return st, k.lst(st, k.lst(st, *k.items(st, xs)), k.lst(st, *k.items(st, arr)), *[k.get(st, d, 'x') for d in nd])
    k.eq('moved.own_coordinates', (FN, 'FrameNode.__init__'), RULE, own_copy,
         lambda st: k.lst(st, k.lst(st, x0, y0), k.lst(st, x0, y0), u, u))

    def resection(how):
        def go(st):
            ms = [(i, j, dict(kw, cls='FrameMember' if how == 'plain pair' else 'SteelFrameMember')) for i, j, kw in MEMBERS[:3]]
            w = World(k, st, PTS, ms)
            ga = None
            if how in ('pair', 'plain pair'):
                k.set(st, w.mems[0], 'symmetry_pair', w.mems[2])
            elif how == 'group':
                ga = k.new(st, FM, 'MemberGroup', k.lst(st, w.mems[0], w.mems[2]))
            elif how == 'added':
                ga = k.new(st, FM, 'MemberGroup')
                other = k.new(st, FM, 'MemberGroup')
                for i in (0, 2):
                    k.call(st, ga, 'add_member', w.mems[i])
                k.call(st, other, 'add_member', w.mems[1])
            w.generate()
            new = w.section('new')
            k.set(st, ga or w.mems[0], 'cross_section', new)
            same = []
            if how != 'plain pair':
                same = [k.get(st, m, 'member.profile.A') for m in w.mems]
            return st, k.lst(st, w.stiffness(), *[k.get(st, m, 'cross_section.A') for m in w.mems], *same)
        return go

    def resection_want(how):
        def go(st):
            tg = ['new', '1', 'new' if how != 'member' else '2']
            out = []
            for x, nel in zip(tg, (2, 3, 1)):
                out += [k.lst(st, t.mul(k.s('E' + x), k.s('A' + x)), k.s('Iy' + x))] * nel
            areas = [k.s('A' + x) for x in tg]
            return k.lst(st, k.lst(st, *out), *areas, *(areas if how != 'plain pair' else []))
        return go
    for how in ('member', 'pair', 'plain pair', 'group', 'added'):
        k.eq('resection.%s' % how, (FM, 'FrameMember.cross_section'), RULE, resection(how), resection_want(how))

    # buckling length factors belong to each member
    def factors(st):
        w = World(k, st, PTS, MEMBERS[:2])
        c1, c2 = k.ss('c1 c2')
        k.set(st, w.mems[0], 'lcr', k.lst(st, c1, c2))
        crit = [k.call(st, m, 'member.ncrit') if False else k.items(st, k.get(st, m, 'member.lcr')) for m in w.mems]
        return st, k.lst(st, *[k.lst(st, *c) for c in crit])
    k.eq('buckling_length', (FM, 'FrameMember.lcr'), RULE, factors,
         lambda st: k.lst(st, k.lst(st, *k.ss('c1 c2')), k.lst(st, n(1), n(1))))

    # ------------------------------------------------ results
    def forced(st, w, cases):
        for c, case in enumerate(cases):
            for i, e in enumerate(k.items(st, w.fem('elements'))):
                k.call(st, e, 'add_loadcase', n(case))
                d = k.it.getitem(st, k.get(st, e, 'fint'), n(case))
                for f_ in ('fx', 'fz', 'my'):
                    k.it.setitem(st, d, f_, k.lst(st, *[k.s('%s%d_%d_%d' % (f_, c, i, j), '?') for j in (0, 1)]))

    def F(f_, c, i, j):
        return k.s('%s%d_%d_%d' % (f_, c, i, j), '?')

    def forces(st):
        w = World(k, st, PTS, MEMBERS[:2]).generate()
        forced(st, w, (CASE, CASE + 1))
        for c in (CASE, CASE + 1):
            k.call(st, w.f, 'calc_nodal_forces', n(c))
        return w
    NAMES = (('N', 'fx'), ('Vz', 'fz'), ('My', 'my'))

    def member_forces(st):
        w = forces(st)
        out = []
        for m in w.mems:
            for c in (CASE, CASE + 1):
                d = k.it.getitem(st, k.get(st, m, 'nodal_forces'), n(c))
                out.append(k.lst(st, *[k.lst(st, *k.items(st, k.it.getitem(st, d, nm))) for nm, _ in NAMES]))
        return st, k.lst(st, *out)
    ELS = [(0, 1), (2, 3, 4)]

    def member_forces_want(st):
        out = []
        for els in ELS:
            for c in (0, 1):
                out.append(k.lst(st, *[k.lst(st, *[F(f_, c, e, 0) for e in els], F(f_, c, els[-1], 1)) for _, f_ in NAMES]))
        return k.lst(st, *out)
    wf = (FM, 'FrameMember.calc_nodal_forces')
    k.eq('results.forces', wf, RULE, member_forces, member_forces_want)

    def signed(big):
        n1, n2, n3 = k.s('n1'), k.s('n2'), k.s('n3')

        def go(st):
            w = World(k, st, PTS, MEMBERS[:1]).generate()
            forced(st, w, (CASE,))
            es = k.items(st, w.fem('elements'))
            hi, lo = t.add(n1, n2), t.neg(n1)
            vals = [lo, hi, n3] if big else [hi, t.neg(t.add(hi, n3)), lo]
            for e, p in zip(es, ((0, 1), (1, 2))):
                d = k.it.getitem(st, k.get(st, e, 'fint'), n(CASE))
                k.it.setitem(st, d, 'fx', k.lst(st, *[vals[i] for i in p]))
            k.call(st, w.mems[0], 'calc_nodal_forces', n(CASE))
            return st, k.it.getitem(st, k.get(st, w.mems[0], 'NEd'), n(CASE))

        def want(st):
            return t.max_([t.add(n1, n2), n3]) if big else t.neg(t.add(t.add(n1, n2), n3))
        return go, want
    for big in (True, False):
        k.eq('results.sign.%s' % big, wf, RULE, *signed(big))

    def displacements(st):
        w = World(k, st, [(Z, Z), (a, Z), (t.add(a, b), Z)], [(1, 0, dict(nel=n(3))), (1, 2, dict(nel=n(1)))]).generate()
        for i, nd in enumerate(k.items(st, w.fem('nodes'))):
            k.it.setitem(st, k.get(st, nd, 'u'), n(CASE), k.nd(st, (3,), [k.s('d%d_%d' % (i, j), '?') for j in range(3)]))
        k.call(st, w.f, 'calc_nodal_displacements', n(CASE))
        out = []
        for m in w.mems:
            ds = k.items(st, k.it.getitem(st, k.get(st, m, 'nodal_displacements'), n(CASE)))
            out += [k.it.getitem(st, d, n(j)) for d in ds for j in range(3)]
        return st, k.lst(st, *out)
    k.eq('results.displacements', (FM, 'FrameMember.calc_nodal_displacements'), RULE, displacements,
         lambda st: k.lst(st, *[k.s('d%d_%d' % (i, j), '?') for i in (1, 3, 4, 0, 1, 2) for j in range(3)]))

    # extremes over load cases: values of decided order, all positive, all negative or of both signs
    STEP = k.ss('v0 v1 v2 v3 v4 v5')

    def ranked(rank, shift, j):
        """Value number rank of an increasing row of which the first `shift` are negative."""
        out = t.ZERO
        if rank >= shift:
            for i in range(shift, rank + 1):
                out = t.add(out, STEP[i])
        else:
            for i in range(rank, shift):
                out = t.sub(out, STEP[i])
        return t.mul(out, n(j + 1))
    ORDERS = [(0, 1, 2, 3, 4, 5), (5, 3, 1, 4, 2, 0), (2, 4, 5, 0, 3, 1)]

    def extreme(turn, shift, cases, given=True):
        rows = ORDERS[turn:] + ORDERS[:turn]

        def value(j, c, i):
            return ranked(rows[j][2 * i + c], shift, j)

        def go(st):
            w = World(k, st, PTS, [(0, 1, dict(mem_type='beam', nel=n(2)))]).generate()
            forced(st, w, (CASE, CASE + 1))
            for i, e in enumerate(k.items(st, w.fem('elements'))):
                for c in (0, 1):
                    d = k.it.getitem(st, k.get(st, e, 'fint'), n(CASE + c))
                    for j, (_, f_) in enumerate(NAMES):
                        k.it.setitem(st, d, f_, k.lst(st, value(j, c, i), value(j, c, i + 1)))
            for c in (0, 1):
                k.call(st, w.f, 'calc_nodal_forces', n(CASE + c))
            args = [k.lst(st, *[n(CASE + c) for c in cases])] if given else []
            d = k.call(st, w.mems[0], 'get_max_forces', *args)
            return st, k.lst(st, *[k.lst(st, *[k.it.getitem(st, k.it.getitem(st, d, '%s %s' % (fn, nm)), x)
                                               for x in ('N', 'Vz', 'My', 'load_id')])
                                   for nm, _ in NAMES for fn in ('min', 'max')])

        def want(st):
            out = []
            for j in range(3):
                for fn in (min, max):
                    c, i = fn(((c, i) for c in cases for i in range(3)), key=lambda p: rows[j][2 * p[1] + p[0]])
                    out.append(k.lst(st, *[value(jj, c, i) for jj in range(3)], n(CASE + c)))
            return k.lst(st, *out)
        return go, want
    for nm, turn, shift, cases in (('positive', 0, 0, (0, 1)), ('negative', 1, 6, (0, 1)), ('mixed', 2, 2, (0, 1)),
                                   ('single', 0, 3, (1,)), ('reverse', 1, 4, (1, 0))):
        k.eq('results.extreme.%s' % nm, (FM, 'FrameMember.get_max_forces'), RULE, *extreme(turn, shift, cases))

    def largest(turn, shift):
        rows = ORDERS[turn:] + ORDERS[:turn]

        def go(st):
            w = World(k, st, PTS, [(0, 1, dict(mem_type='beam', nel=n(3))), (1, 2, dict(mem_type='beam', nel=n(1)))]).generate()
            forced(st, w, (CASE, CASE + 1))
            for i, e in enumerate(k.items(st, w.fem('elements'))[:3]):
                d = k.it.getitem(st, k.get(st, e, 'fint'), n(CASE))
                for j, (_, f_) in enumerate(NAMES):
                    k.it.setitem(st, d, f_, k.lst(st, *[ranked(rows[j][x], shift, j) for x in (i, i + 1)]))
            for c in (CASE, CASE + 1):
                k.call(st, w.f, 'calc_nodal_forces', n(c))
            return st, k.lst(st, *[k.it.getitem(st, k.get(st, w.mems[0], nm + 'Ed'), n(CASE)) for nm, _ in NAMES])

        def want(st):
            best = max if shift == 0 else min
            return k.lst(st, *[ranked(best(rows[j][:4]), shift, j) for j in range(3)])
        return go, want
    for nm, turn, shift in (('positive', 0, 0), ('positive2', 1, 0), ('negative', 0, 6), ('negative2', 2, 6)):
        k.eq('results.design_value.%s' % nm, wf, RULE, *largest(turn, shift))

    # design: section forces of the load case, utilisation, overall result
    def designed(st, order):
        w = forces(st)
        m = w.mems[0]
        us = {CASE: k.s('U0'), CASE + 1: k.s('U1')}
        seen = []

        def design(it, s, args, kw):
            self_ = args[0]
            for p in ('ned', 'vzed', 'myed'):
                seen.append(k.lst(s, *k.items(s, k.get(s, self_, p))))
            return us[cur[0]]
        cur = [None]
        k.it.func_overrides[('metku.structures.steel.steel_member', 'SteelMember.design')] = design
        try:
            for c in order:
                cur[0] = c
                k.call(st, m, 'design', n(c))
        finally:
            del k.it.func_overrides[('metku.structures.steel.steel_member', 'SteelMember.design')]
        u_ = k.get(st, m, 'utilization')
        return st, k.lst(st, *seen, *[k.it.getitem(st, u_, n(c)) for c in (CASE, CASE + 1)], k.get(st, m, 'resistance_check'))

    def designed_want(st, order):
        out = []
        for c in order:
            c -= CASE
            out += [k.lst(st, F(f_, c, 0, 0), F(f_, c, 1, 0), F(f_, c, 1, 1)) for f_ in ('fx', 'fz', 'my')]
        out += [k.s('U0'), k.s('U1')]
        ok = k.it.compare(st, ast.LtE(), t.max_([k.s('U0'), k.s('U1')]), t.UNIT)
        return k.lst(st, *out, ok)
    for order in ((CASE, CASE + 1), (CASE + 1, CASE)):
        k.eq('results.design.%d' % order[0], (FM, 'SteelFrameMember.design'), RULE, lambda st, o=order: designed(st, o),
             lambda st, o=order: designed_want(st, o))

    # ------------------------------------------------ whole analysis
    E, A, Iy = k.ss('E0 A0 Iy0')

    def beam(which, runs=1):
        def go(st):
            w = World(k, st, [(Z, Z), (L, Z)], [(0, 1, dict(nel=n(2)))], [('XYHingedSupport', 0), ('YHingedSupport', 1)])
            w.add(FL, 'LineLoad', w.mems[0], k.lst(st, t.neg(q), t.neg(q)), 'y', load_id=n(1))
            w.add(FL, 'PointLoad', w.nodes[1], k.lst(st, p1, p2, Z), load_id=n(1))
            w.add(FL, 'LineLoad', w.mems[0], k.lst(st, t.neg(q1), t.neg(q1)), 'y', load_id=n(2))
            w.generate()
            for _ in range(runs):
                if which == 'ALL':
                    k.call(st, w.f, 'structural_analysis', 'ALL', 'REM', False)
                elif which == 'calculate':
                    k.call(st, w.f, 'calculate', design=False)
                else:
                    for c in which:
                        k.call(st, w.f, 'structural_analysis', n(c), 'REM', False)
            out = []
            for c in (1, 2):
                d = k.it.getitem(st, k.get(st, w.mems[0], 'nodal_forces'), n(c))
                out += [k.lst(st, *k.items(st, k.it.getitem(st, d, x))) for x in ('N', 'Vz', 'My')]
                ds = k.items(st, k.it.getitem(st, k.get(st, w.mems[0], 'nodal_displacements'), n(c)))
                out.append(k.lst(st, *[k.it.getitem(st, x, n(j)) for x in ds for j in range(3)]))
            return st, k.lst(st, *out)
        return go

    def beam_want(st):
        out = []
        for qq, H in ((q, p1), (q1, Z)):
            d = k.sp(st, 'beam_uniform', E, A, Iy, L, qq, H)
            M, V, N, w_, th, u_ = [k.it.getitem(st, d, x) for x in ('M', 'V', 'N', 'w', 't', 'u')]
            out += [k.lst(st, N, N, N), k.lst(st, V, Z, t.neg(V)), k.lst(st, Z, M, Z)]
            out.append(k.lst(st, Z, Z, t.neg(th), t.div(u_, n(2)), t.neg(w_), Z, u_, Z, th))
        return k.lst(st, *out)
    # single cases, combinations of them, and cases added after an analysis
    def combos(which, late=False):
        def go(st):
            w = World(k, st, [(Z, Z), (L, Z)], [(0, 1, dict(nel=n(2)))], [('XYHingedSupport', 0), ('YHingedSupport', 1)])
            w.add(FL, 'LineLoad', w.mems[0], k.lst(st, t.neg(q), t.neg(q)), 'y', load_id=n(1), ltype='dead')
            w.add(FL, 'LineLoad', w.mems[0], k.lst(st, t.neg(q1), t.neg(q1)), 'y', load_id=n(2), ltype='snow')
            w.add(FL, 'PointLoad', w.nodes[1], k.lst(st, p1, Z, Z), load_id=n(3), ltype='live')
            if late:
                w.generate()
                k.call(st, w.f, 'structural_analysis', 'ALL', 'REM', False)
            cases = [k.it.getitem(st, k.get(st, w.f, 'load_cases'), n(i)) for i in (1, 2, 3)]
            for cid, typ, ids in ((11, 'ULS', (0, 1, 2)), (12, 'SLS', (2, 1, 0))):
                w.add(FL, 'LoadCombination', n(cid), typ, k.lst(st, *[cases[i] for i in ids]))
            w.generate()
            if which == 'ALL':
                k.call(st, w.f, 'structural_analysis', 'ALL', 'REM', False)
            else:
                for c in which:
                    k.call(st, w.f, 'structural_analysis', n(c), 'REM', False)
            out = []
            for c in (1, 2, 3, 11, 12):
                d = k.it.getitem(st, k.get(st, w.mems[0], 'nodal_forces'), n(c))
                out += [k.it.getitem(st, k.it.getitem(st, d, 'My'), n(1)), k.it.getitem(st, k.it.getitem(st, d, 'N'), n(0)),
                        k.it.getitem(st, k.get(st, w.mems[0], 'MyEd'), n(c)), k.it.getitem(st, k.get(st, w.mems[0], 'NEd'), n(c))]
                ds = k.items(st, k.it.getitem(st, k.get(st, w.mems[0], 'nodal_displacements'), n(c)))
                out += [k.it.getitem(st, ds[1], n(1)), k.it.getitem(st, ds[2], n(0))]
            return st, k.lst(st, *out)
        return go

    def combos_want(st):
        out = []
        F_ = Fraction
        for c1, c2, c3 in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (F_(115, 100), F_(3, 2), F_(105, 100)), (1, F_(7, 10), 1)):
            qq = t.add(t.mul(n(c1), q), t.mul(n(c2), q1))
            d = k.sp(st, 'beam_uniform', E, A, Iy, L, qq, t.mul(n(c3), p1))
            M, V, N, w_, th, u_ = [k.it.getitem(st, d, x) for x in ('M', 'V', 'N', 'w', 't', 'u')]
            out += [M, N, M, N, t.neg(w_), u_]
        return k.lst(st, *out)
    for nm, which, late in (('all', 'ALL', False), ('reverse', (12, 11, 3, 2, 1), False), ('late', 'ALL', True)):
        k.eq('analysis.combinations.%s' % nm, (RA, 'Raami.structural_analysis'), RULE, combos(which, late), combos_want)

    for nm, which, runs in (('all', 'ALL', 1), ('single', (1, 2), 1), ('reverse', (2, 1), 1), ('repeated', 'ALL', 2), ('calculate', 'calculate', 1)):
        k.eq('analysis.beam.%s' % nm, (RA, 'Raami.structural_analysis'), RULE, beam(which, runs), beam_want)


def sumsq(xs):
    out = t.ZERO
    for x in xs:
        out = t.add(out, t.mul(x, x))
    return out
