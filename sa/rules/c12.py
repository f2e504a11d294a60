"""C12: assembly and solution of the frame analysis."""
from fractions import Fraction

from ..kit import Kit
from .. import interp as I
from .. import terms as t
from .c10 import Frame, FF, EB, SR, ROD, SPR

EXPLAIN = ('Value graphs of the global matrices, load vectors, displacements and end forces computed by FrameFEM for frames of fixed '
           'topology with symbolic dimensions, sections, materials and loads, compared with the assembled reference matrices and with '
           'closed-form solutions of the frames.')
RULE = 'global system = sum of the elements; solution = closed form'
CASES = (7, 4)


class Model:
    """A frame described by nodes, members and supports."""

    def __init__(self, k, nodes, members, supports, order=None):
        self.k, self.nodes, self.members, self.supports = k, nodes, members, supports
        self.order = order or 'NESC'

    def build(self, st):
        k = self.k
        f = k.new(st, FF, 'FrameFEM')
        nd, els = [], []
        for step in self.order:
            if step == 'N':
                for x, y in self.nodes:
                    nd.append(k.call(st, f, 'add_node', x, y))
            elif step == 'E':
                for mod, cls, i, j, par in self.members:
                    if cls == 'LinearSpring':
                        e = k.new(st, mod, cls, nd[i], nd[j], par[0])
                    else:
                        E, A, I1 = par
                        sec = k.new(st, FF, 'BeamSection', A, I1)
                        mat = k.new(st, FF, 'Material', E, k.s('rho'), k.n(Fraction(3, 10)))
                        e = k.new(st, mod, cls, nd[i], nd[j], sec, mat)
                    k.call(st, f, 'add_element', e)
                    els.append(e)
            elif step == 'S':
                for i, d in self.supports:
                    k.call(st, f, 'add_support', k.n(1), k.n(i), k.lst(st, *[k.n(x) for x in d]), t.ZERO)
            elif step == 'C':
                for c in CASES:
                    k.call(st, f, 'add_loadcase', k.n(1), k.n(c))
        k.call(st, f, 'nodal_dofs')
        return f, nd, els


def run(r):
    k = Kit(r, 'fem')
    k.it.exact_round = 3
    a, b, h, L = k.ss('a b h L')
    E, A, I1, E2, A2, I2, A3 = k.ss('E A I E2 A2 I2 A3')
    P2 = k.s('P2')
    N, H, P, q, q1, q2, lam = [k.s(n, '?') for n in 'N H P q q1 q2 lam'.split()]
    Z = t.ZERO
    B, R_, S = (EB, 'EBBeam'), (ROD, 'Rod'), (SPR, 'LinearSpring')

    portal = Model(k, [(Z, Z), (Z, h), (b, h), (b, Z)],
                   [B + (0, 1, (E, A, I1)), B + (2, 1, (E2, A2, I2)), R_ + (2, 3, (E2, A3, I2)), S + (3, 0, (P_ := k.s('ks'),))],
                   [(0, (0, 1, 2)), (3, (1, 2))])
    DOFS = [(0, 1, 2, 3, 4, 5), (6, 7, 8, 3, 4, 5), (6, 7, 9, 10), (9, 10, 0, 1)]
    w = (FF, 'FrameFEM.')

    def dofs(st):
        return k.lst(st, *[k.lst(st, *[k.n(x) for x in d]) for d in DOFS])

    ends = [(Z, Z, Z, h), (b, h, Z, h), (b, h, b, Z), (b, Z, Z, Z)]

    def eg(st, i, ref, *args):
        v = k.sp(st, 'rotation', *ends[i])
        Le, T = k.it.getitem(st, v, Z), k.it.getitem(st, v, t.UNIT)
        return k.sp(st, 'to_global', k.sp(st, ref, *[Le if x == 'L' else x for x in args]), T)

    def xy(st, i):
        e = ends[i]
        return k.lst(st, *e[:2]), k.lst(st, *e[2:])

    def prepared(st, force=None):
        f, nd, els = portal.build(st)
        if force:
            for e, n in zip(els, force):
                d = k.it.getitem(st, k.get(st, e, 'fint'), k.n(CASES[0]))
                k.it.setitem(st, d, 'fx', k.lst(st, n, n))
        return f, nd, els

    k.eq('assembly.K', (FF, 'FrameFEM.global_stiffness_matrix'), RULE,
         lambda st: k.call(st, prepared(st)[0], 'global_stiffness_matrix'),
         lambda st: k.sp(st, 'assemble', k.n(11), k.lst(st, eg(st, 0, 'beam', E, A, I1, 'L'), eg(st, 1, 'beam', E2, A2, I2, 'L'),
                                                       k.sp(st, 'rod', E2, A3, *xy(st, 2)), k.sp(st, 'bar', P_, *xy(st, 3))), dofs(st)))
    n4 = [k.s('n%d' % i, '?') for i in range(4)]
    k.eq('assembly.KG', (FF, 'FrameFEM.global_geometric_stiffness_matrix'), RULE,
         lambda st: k.call(st, prepared(st, n4)[0], 'global_geometric_stiffness_matrix', k.n(CASES[0])),
         lambda st: k.sp(st, 'assemble', k.n(11), k.lst(st, eg(st, 0, 'geometric', n4[0], 'L'), eg(st, 1, 'geometric', n4[1], 'L'),
                                                       k.sp(st, 'bar_geometric', n4[2], *xy(st, 2)), k.sp(st, 'bar_geometric', n4[3], *xy(st, 3))), dofs(st)))

    # the last and the first node shared by several elements, matrices of the three kinds
    TR = {'last': ((Z, Z), (t.add(a, b), Z), (a, h), (a, Z)), 'first': ((a, Z), (Z, Z), (t.add(a, b), Z), (a, h))}
    for where, pts in TR.items():
        c = 3 if where == 'last' else 0
        others = [i for i in range(4) if i != c]
        m4 = Model(k, list(pts), [B + ((i, c) if n != 1 else (c, i)) + ((E, A, I1),) for n, i in enumerate(others)], [])
        conn = [((i, c) if n != 1 else (c, i)) for n, i in enumerate(others)]
        fd = [[3 * i + j for i in p for j in range(3)] for p in conn]

        def hub(st, m4=m4, conn=conn):
            f, nd, els = m4.build(st)
            for e, n in zip(els, (n4[0], N, t.neg(P2))):
                k.it.setitem(st, k.it.getitem(st, k.get(st, e, 'fint'), k.n(CASES[0])), 'fx', k.lst(st, n, n))
            return f

        def want(st, ref, args, pts=pts, conn=conn, fd=fd):
            ms = []
            for (i, j), ar in zip(conn, args):
                v = k.sp(st, 'rotation', *pts[i], *pts[j])
                Le, T = k.it.getitem(st, v, Z), k.it.getitem(st, v, t.UNIT)
                ms.append(k.sp(st, 'to_global', k.sp(st, ref, *[Le if x == 'L' else x for x in ar]), T))
            return k.sp(st, 'assemble', k.n(12), k.lst(st, *ms), k.lst(st, *[k.lst(st, *[k.n(x) for x in d]) for d in fd]))
        k.eq('assembly.%s.K' % where, (FF, 'FrameFEM.global_stiffness_matrix'), RULE,
             lambda st, hub=hub: k.call(st, hub(st), 'global_stiffness_matrix'),
             lambda st, want=want: want(st, 'beam', [(E, A, I1, 'L')] * 3))
        k.eq('assembly.%s.KG' % where, (FF, 'FrameFEM.global_geometric_stiffness_matrix'), RULE,
             lambda st, hub=hub: k.call(st, hub(st), 'global_geometric_stiffness_matrix', k.n(CASES[0])),
             lambda st, want=want: want(st, 'geometric', [(n, 'L') for n in (n4[0], N, t.neg(P2))]))

        def tension(st, m4=m4):
            f, nd, els = m4.build(st)
            for e in els:
                k.it.setitem(st, k.it.getitem(st, k.get(st, e, 'fint'), k.n(CASES[0])), 'fx', k.lst(st, P2, P2))
            return k.call(st, f, 'global_second_order_stiffness_matrix', k.n(CASES[0]))
        k.eq('assembly.%s.KII' % where, (FF, 'FrameFEM.global_second_order_stiffness_matrix'), RULE, tension,
             lambda st, want=want: want(st, 'beam', [(E, A, I1, 'L')] * 3))

    # numbering and supports
    def numbers(st):
        f, nd, els = portal.build(st)
        return st, k.lst(st, k.get(st, f, 'dofs'), *[k.get(st, n, 'dofs') for n in nd])
    k.eq('dofs.numbering', (FF, 'FrameFEM.nodal_dofs'), RULE, numbers,
         lambda st: k.lst(st, k.n(11), *[k.nd(st, (3,), [k.n(x) for x in d]) for d in ((0, 1, 2), (3, 4, 5), (6, 7, 8), (9, 10, -1))]))

    def supports(st):
        f, nd, els = portal.build(st)
        return st, k.lst(st, k.call(st, f, 'sorted_supports') if False else k.get(st, f, 'nfree_dofs'),
                         k.lst(st, *k.items(st, k.get(st, f, 'supp_dofs'))), k.call(st, f, 'element_free_dofs', k.n(2)))
    k.eq('dofs.supports', (FF, 'FrameFEM.supported_dofs'), RULE, supports,
         lambda st: k.lst(st, k.n(7), k.lst(st, *[k.n(x) for x in (0, 1, 2, 10)]), k.lst(st, *[k.n(x) for x in (6, 7, 9)])))

    # ------------------------------------------------ closed-form frames
    def results(st, f, nd, els, case, order=1):
        u = [k.it.getitem(st, k.get(st, n, 'u' if order == 1 else 'u2'), k.n(case)) for n in nd]
        out = [k.lst(st, *[k.it.getitem(st, x, k.n(i)) for i in range(3)]) for x in u]
        for e in els:
            d = k.it.getitem(st, k.get(st, e, 'fint' if order == 1 else 'fint2'), k.n(case))
            rod = e_cls(st, e) != 'EBBeam'
            out.append(k.lst(st, *[x for n in (('fx',) if rod else ('fx', 'my', 'fz')) for x in k.items(st, k.it.getitem(st, d, n))]))
        return k.lst(st, *out)

    def e_cls(st, e):
        return st.get(e).cls.name

    def line(st, f, e, qa, qb, d='y', coords='local', case=CASES[0], fac=None):
        l = k.new(st, FF, 'LineLoad', k.n(case), e, k.lst(st, Z, t.UNIT), k.lst(st, qa, qb), d, coords=coords)
        if fac is not None:
            k.set(st, l, 'f', fac)
        k.call(st, f, 'add_load', l)

    def point(st, f, n, v, case=CASES[0], fac=t.UNIT):
        k.call(st, f, 'add_load', k.new(st, FF, 'PointLoad', k.n(case), n, k.lst(st, *v), fac))

    def solve(model, loads, which='one', method='REM', case=CASES[0], runs=1):
        def go(st):
            f, nd, els = model.build(st)
            loads(st, f, nd, els)
            for _ in range(runs):
                if which == 'both':
                    k.call(st, f, 'linear_statics', k.lst(st, *[k.n(c) for c in CASES]), support_method=method)
                else:
                    k.call(st, f, 'linear_statics', k.n(case), support_method=method)
            return st, results(st, f, nd, els, case)
        return go

    skew = Model(k, [(a, b), (t.add(a, t.mul(t.num(Fraction(3, 5)), L)), t.add(b, t.mul(t.num(Fraction(4, 5)), L)))],
                 [B + (0, 1, (E, A, I1))], [(0, (0, 1, 2))])

    def tip(st, f, nd, els):
        point(st, f, nd[1], [H, P, q], fac=lam)
        point(st, f, nd[1], [q1, q2, P], case=CASES[1])

    ws = (FF, 'FrameFEM.linear_statics')
    tipw = {CASES[0]: [t.mul(lam, x) for x in (H, P, q)], CASES[1]: [q1, q2, P]}
    for method in ('REM', 'ZERO'):
        for which, case in (('one', CASES[0]), ('one', CASES[1]), ('both', CASES[0]), ('both', CASES[1])):
            k.eq('solve.cantilever.%s.%s.%d' % (method, which, case), ws, RULE, solve(skew, tip, which, method, case),
                 lambda st, case=case: k.sp(st, 'cantilever_tip', E, A, I1, L, t.num(Fraction(3, 5)), t.num(Fraction(4, 5)), *tipw[case]))
    late = Model(k, skew.nodes, skew.members, skew.supports, 'CNES')
    k.eq('solve.cantilever.order', ws, RULE, solve(late, tip, runs=2),
         lambda st: k.sp(st, 'cantilever_tip', E, A, I1, L, t.num(Fraction(3, 5)), t.num(Fraction(4, 5)), *tipw[CASES[0]]))
    prop = Model(k, [(Z, Z), (L, Z)], [B + (0, 1, (E, A, I1))], [(0, (0, 1, 2)), (1, (1,))])

    def dist(st, f, nd, els):
        line(st, f, els[0], q1, q2, coords='global', fac=lam)
        line(st, f, els[0], q, q, d='x')
        line(st, f, els[0], q2, q2, case=CASES[1])
    for method in ('REM', 'ZERO'):
        k.eq('solve.propped.%s' % method, ws, RULE, solve(prop, dist, method=method, runs=2),
             lambda st: k.sp(st, 'propped', E, A, I1, L, t.mul(lam, q1), t.mul(lam, q2), q))
    spans = Model(k, [(Z, Z), (a, Z), (t.add(a, b), Z)], [B + (0, 1, (E, A, I1)), B + (1, 2, (E, A2, I1))],
                  [(0, (0, 1)), (1, (1,)), (2, (1,))])

    def first(st, f, nd, els):
        line(st, f, els[0], q, q)
        point(st, f, nd[2], [H, P, Z])
        line(st, f, els[1], q2, q2, case=CASES[1])
    for method in ('REM', 'ZERO'):
        k.eq('solve.two_spans.%s' % method, ws, RULE, solve(spans, first, 'both', method),
             lambda st: k.sp(st, 'two_spans', E, A, A2, I1, a, b, q, H))
    truss = Model(k, [(Z, Z), (b, Z), (a, h)], [R_ + (0, 2, (E, A, I1)), R_ + (2, 1, (E2, A2, I2))], [(0, (0, 1)), (1, (0, 1, 2))])

    def apex(st, f, nd, els):
        point(st, f, nd[2], [H, P, Z])
    for method in ('REM', 'ZERO'):
        def trussed(st, method=method):
            f, nd, els = truss.build(st)
            apex(st, f, nd, els)
            k.call(st, f, 'linear_statics', k.n(CASES[0]), support_method=method)
            return st, k.lst(st, *[k.it.getitem(st, k.it.getitem(st, k.it.getitem(st, k.get(st, e, 'fint'), k.n(CASES[0])), 'fx'), Z) for e in els])
        k.eq('solve.truss.%s' % method, ws, RULE, trussed, lambda st: k.sp(st, 'two_rods', a, b, h, H, P),
             t.Ctx().with_sign(t.sub(b, a), 1))
    # a support added after a first analysis

    def resupported(st):
        f, nd, els = prop.build(st)
        line(st, f, els[0], q, q)
        k.call(st, f, 'linear_statics', k.n(CASES[0]), support_method='REM')
        k.call(st, f, 'add_support', k.n(1), k.n(1), k.lst(st, k.n(0), k.n(2)), Z)
        k.call(st, f, 'linear_statics', k.n(CASES[0]), support_method='REM')
        return st, results(st, f, nd, els, CASES[0])
    k.eq('solve.resupported', ws, RULE, resupported, lambda st: k.sp(st, 'clamped', L, q))

    # ------------------------------------------------ second-order analysis of a compressed cantilever
    col = Model(k, [(Z, Z), (L, Z)], [B + (0, 1, (E, A, I1))], [(0, (0, 1, 2))])
    F = k.s('F')

    def second(method):
        def go(st):
            f, nd, els = col.build(st)
            point(st, f, nd[1], [t.neg(F), H, Z])
            k.call(st, f, 'second_order_analysis', k.n(CASES[0]), support_method=method)
            u = k.it.getitem(st, k.get(st, nd[1], 'u2'), k.n(CASES[0]))
            d = k.it.getitem(st, k.get(st, els[0], 'fint2'), k.n(CASES[0]))
            return st, k.lst(st, *[k.it.getitem(st, u, k.n(i)) for i in range(3)], k.it.getitem(st, k.it.getitem(st, d, 'my'), Z))
        return go
    for method in ('REM', 'ZERO'):
        k.eq('second.column.%s' % method, (FF, 'FrameFEM.second_order_analysis'), RULE, second(method),
             lambda st: k.sp(st, 'column_second', E, A, I1, L, F, H))

    def second_loaded(method):
        def go(st):
            f, nd, els = col.build(st)
            point(st, f, nd[1], [t.neg(F), H, Z])
            line(st, f, els[0], q, q)
            k.call(st, f, 'second_order_analysis', k.n(CASES[0]), support_method=method)
            u = k.it.getitem(st, k.get(st, nd[1], 'u2'), k.n(CASES[0]))
            d = k.it.getitem(st, k.get(st, els[0], 'fint2'), k.n(CASES[0]))
            return st, k.lst(st, *[k.it.getitem(st, u, k.n(i)) for i in range(3)], k.it.getitem(st, k.it.getitem(st, d, 'my'), Z))
        return go
    for method in ('REM', 'ZERO'):
        k.eq('second.loaded.%s' % method, (FF, 'FrameFEM.second_order_analysis'), RULE, second_loaded(method),
             lambda st: k.sp(st, 'column_loaded', E, A, I1, L, F, H, q))

    # ------------------------------------------------ linear buckling: matrices given to the eigenvalue solver and mode shapes
    def buckling(st):
        seen = []

        def hook(it, s, path, args, kw):
            if not path.endswith('eigsh'):
                return NotImplemented
            seen.append((args[0], kw.get('M'), kw.get('k'), kw.get('sigma'), kw.get('which'), kw.get('mode')))
            n = k.it.np.to_nd(it, s, args[0])[1][0]
            ms = k.nd(s, (n, 2), [k.s('m%d_%d' % (i, j), '?') for i in range(n) for j in range(2)])
            return I.Tup((k.nd(s, (2,), [k.s('w0'), k.s('w1')]), ms))
        k.it.ext_hook = hook
        try:
            f, nd, els = spans.build(st)
            point(st, f, nd[2], [t.neg(F), Z, Z])
            k.call(st, f, 'linear_buckling', k.n(CASES[0]), k.n(2))
        finally:
            k.it.ext_hook = None
        modes = [k.get(st, n, 'v') for n in nd]
        return st, k.lst(st, *seen[0][:2], *modes, k.get(st, f, 'load_factors'))
    k.eq('buckling.two_spans', (FF, 'FrameFEM.linear_buckling'), RULE, buckling,
         lambda st: k.sp(st, 'buckling_two_spans', E, A, A2, I1, a, b, F,
                         *[k.lst(st, *[k.s('m%d_%d' % (i, j), '?') for i in range(5)]) for j in range(2)], k.s('w0'), k.s('w1')))

    # mode shapes of a frame whose free degrees of freedom are neither the first nor many
    star = Model(k, [(Z, Z), (t.add(a, b), Z), (a, Z), (a, h)],
                 [B + (0, 2, (E, A, I1)), B + (1, 2, (E, A, I1)), B + (3, 2, (E, A, I1))],
                 [(0, (0, 1, 2)), (1, (0, 1, 2)), (3, (0, 1, 2))])

    def modes(st):
        def hook(it, s, path, args, kw):
            if not path.endswith('eigsh'):
                return NotImplemented
            return I.Tup((k.nd(s, (2,), [k.s('w0'), k.s('w1')]),
                          k.nd(s, (3, 2), [k.s('m%d_%d' % (i, j), '?') for i in range(3) for j in range(2)])))
        k.it.ext_hook = hook
        try:
            f, nd, els = star.build(st)
            point(st, f, nd[2], [t.neg(F), H, Z])
            k.call(st, f, 'linear_buckling', k.n(CASES[0]), k.n(2))
        finally:
            k.it.ext_hook = None
        return st, k.lst(st, *[k.get(st, n, 'v') for n in nd])
    zero = [Z] * 6
    k.eq('buckling.modes', (FF, 'FrameFEM.linear_buckling'), RULE, modes,
         lambda st: k.lst(st, k.nd(st, (2, 3), zero), k.nd(st, (2, 3), zero),
                          k.nd(st, (2, 3), [k.s('m%d_%d' % (i, j), '?') for j in range(2) for i in range(3)]),
                          k.nd(st, (2, 3), zero)))
