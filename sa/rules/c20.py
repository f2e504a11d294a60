"""C20: what optimisation solvers hand to numerical libraries, and the designs they report."""
from fractions import Fraction

from ..core import Undecided
from .. import interp as I
from .. import terms as t
from .c19 import Case, positive, inside

EXPLAIN = ('Problems with symbolic coefficients handed to the solvers; the calls that reach the numerical libraries (constraints, bounds, '
           'objective, rows of linear programs, move limits, asymptotes) are captured and compared with the problem, and the designs the '
           'iteration reports with the points it visited.')
RULE = 'solver works on the given problem'
OP = 'metku.optimization.solvers.'


class Solve(Case):
    def __init__(self, r, x=None, f=None, ok=True, values=None, status=0, viol=0, n=0):
        super().__init__(r)
        self.k.spec_mod = 'solve'
        self.calls, self.programs = [], []
        k = self.k

        def hook(it, st, path, args, kw):
            if path in ('time.time', 'time.process_time', 'time.perf_counter'):
                return t.ZERO
            if path.startswith('matplotlib') or path.startswith('ortools') and not path.endswith('Solver'):
                return NotImplemented
            if path == 'scipy.optimize.minimize':
                self.calls.append((list(args), dict(kw)))
                return k.sp(st, 'solvecase:Result', k.it.np.mk(st, [self.val(st, v) for v in x], (len(x),)), self.val(st, f), ok,
                            self.val(st, viol))
            if path == 'scipy.optimize.Bounds':
                return k.sp(st, 'solvecase:Bounds', *args, **kw)
            if path == 'scipy.optimize.NonlinearConstraint':
                return k.sp(st, 'solvecase:NonlinearLimits', *args, **kw)
            if path == 'scipy.optimize.LinearConstraint':
                return k.sp(st, 'solvecase:LinearLimits', *args, **kw)
            if path.endswith('pywraplp.Solver'):
                p = k.obj(k.sp(st, 'solvecase:Program', self.val(st, values), k.n(status), k.n(n)))
                self.programs.append(p)
                return p
            return NotImplemented
        k.it.ext_hook = hook

    def seq(self, st, v):
        """A list with the elements of a sequence, anything else as such."""
        if isinstance(v, I.Tup) or isinstance(v, I.Ref) and isinstance(st.get(v), I.HObj) and st.get(v).kind in ('list', 'nd'):
            return self.k.lst(st, *self.k.items(st, v))
        return v

    def ordered(self, st, vals):
        return self.k.lst(st, *sorted(vals, key=I.show))

    def shown(self, st, p):
        return self.sorted_rows(st, self.k.call(st, p, 'given'))

    def sorted_rows(self, st, q):
        w = self.k.items(st, q)
        rows = self.k.items(st, w[0])
        rows.sort(key=lambda v: [I.show(a) for a in self.k.items(st, v)])
        return self.k.lst(st, self.k.lst(st, *rows), *w[1:])

    def handed(self, st, point):
        """Problem that reached scipy, evaluated at a point."""
        k = self.k
        if len(self.calls) != 1:
            raise Undecided('calls of the numerical minimisation: %d' % len(self.calls))
        args, kw = self.calls[0]
        fun = args[0] if args else kw['fun']
        x = self.val(st, point)
        eq, ineq = [], []
        for c in k.items(st, kw.get('constraints', k.lst(st))):
            if st.get(c).kind == 'dict':
                v = k.it.call(st, k.it.getitem(st, c, 'fun'), [x], {})
                kind = k.it.getitem(st, c, 'type')
                (eq if kind == 'eq' else ineq).append(t.power(v, Fraction(2)) if kind == 'eq' and isinstance(v, t.E) else v)
                continue
            v = k.it.call(st, k.get(st, c, 'fun'), [x], {})
            lb, ub = k.get(st, c, 'lb'), k.get(st, c, 'ub')
            inf = [t.INF(), t.neg(t.INF())]
            if all(b in inf for b in (lb, ub)):
                continue
            if lb not in inf and ub not in inf and I.show(lb) == I.show(ub):
                d = k.it.binop(st, I.ast.Sub(), v, lb)
                eq.append(t.power(d, Fraction(2)) if isinstance(d, t.E) else d)
                continue
            if lb not in inf:
                ineq.append(k.it.binop(st, I.ast.Sub(), v, lb))
            if ub not in inf:
                ineq.append(k.it.binop(st, I.ast.Sub(), ub, v))
        b = kw.get('bounds')
        if b is None:
            lo = up = k.lst(st)
        elif isinstance(b, I.Ref) and st.get(b).kind == 'inst':
            lo, up = k.lst(st, *k.items(st, k.get(st, b, 'lb'))), k.lst(st, *k.items(st, k.get(st, b, 'ub')))
        else:
            ps = [k.items(st, p) for p in k.items(st, b)]
            lo, up = k.lst(st, *[p[0] for p in ps]), k.lst(st, *[p[1] for p in ps])
        return k.lst(st, k.it.call(st, fun, [x], {}), self.ordered(st, eq), self.ordered(st, ineq), lo, up)

    def wanted(self, st, *args):
        k = self.k
        w = k.items(st, k.sp(st, 'given', *[self.val(st, a) for a in args]))
        return k.lst(st, w[0], self.ordered(st, k.items(st, w[1])), self.ordered(st, k.items(st, w[2])), w[3], w[4])


def run(r):
    scipy(r)
    sequential(r)
    asymptotes(r)
    loop(r)


LOCKS = [('free', []), ('first', [0]), ('middle', [1]), ('two', [0, 2])]


def scipy(r):
    BND = [(-3, 40), (1, 60), (-20, 7)]
    WN = [17, 4, -9]
    XN = [3, 5, 6]
    for mod, cls in (('slsqp', 'SLSQP'), ('slsqp', 'COBYLA'), ('trust_region', 'TrustRegionConstr')):
        where = (OP + mod, cls + '.solve')
        for nm, idx in LOCKS:
            for ng, senses in enumerate((['<', '>', '=', '<'], ['=', '<', '>', '='], ['>', '=', '<', '>'])):
                best = [Fraction(7 + i, 2) for i in range(3 - len(idx))]
                c = Solve(r, x=best, f=Fraction(31, 4))
                k = c.k
                cf, g1, g2 = c.c('f', 5), c.c('g', 5), c.c('h', 5)
                ca = [(c.c('a', 3), k.s('b1', '?')), (c.c('b', 3), k.s('b2', '?') if ng != 1 else None)]
                lock = [(i, WN[i]) for i in idx]
                x = [XN[i] for i in range(3) if i not in idx]
                kind = 'MAX' if ng == 1 else 'MIN'

                def code(st, c=c, k=k, cf=cf, g1=g1, g2=g2, ca=ca, senses=senses, lock=lock, x=x, kind=kind, mod=mod, cls=cls):
                    del c.calls[:]
                    P = k.obj(k.sp(st, 'solvecase:problem', *[c.val(st, v) for v in (cf, [g1, g2], ca, senses, lock, BND, kind)]))
                    s = k.new(st, OP + mod, cls)
                    k.call(st, s, 'solve', P, x0=c.val(st, x))
                    h = c.handed(st, [y + 1 for y in x])
                    args, kw = c.calls[0]
                    return st, k.lst(st, h, k.lst(st, *k.items(st, args[1])), k.get(st, s, 'best_f'),
                                     c.seq(st, k.get(st, s, 'best_x')))

                def want(st, c=c, k=k, cf=cf, g1=g1, g2=g2, ca=ca, senses=senses, lock=lock, x=x, kind=kind, best=best):
                    return k.lst(st, c.wanted(st, [y + 1 for y in x], cf, [g1, g2], ca, senses, lock, BND, kind),
                                 c.val(st, x), c.val(st, Fraction(31, 4)), c.val(st, best))
                k.eq('%s.%s.%s' % (cls, nm, ''.join(senses)), where, RULE, code, want)
        for ok in (True, False):
            c = Solve(r, x=[1, 2, 3], f=4, ok=ok, viol=0 if ok else 1)
            k = c.k

            def flag(st, c=c, k=k, mod=mod, cls=cls):
                P = k.obj(k.sp(st, 'solvecase:problem', *[c.val(st, v) for v in ([1] * 5, [], [], [], [], BND)]))
                s = k.new(st, OP + mod, cls)
                k.call(st, s, 'solve', P, x0=c.val(st, [1, 1, 1]))
                return st, k.get(st, s, 'feasible')
            k.eq('%s.feasible.%s' % (cls, ok), where, RULE, flag, lambda st, ok=ok: ok)


def loop(r):
    wl = (OP + 'optsolver', 'OptSolver.solve')
    tol = Fraction(1, 10000)
    inside_, outside = {'<': (-3, tol), '>': (2, -tol), '=': (0, tol)}, {'<': (2 * tol, 5), '>': (-2 * tol, -4), '=': (1, -2 * tol)}
    for n, (vals, senses) in enumerate([([9, 5, 3, 4], ['<']), ([9, -3, 5, 1], ['>']), ([9, 5, 5, 2], ['<']), ([1, 4, 3, 2], ['=']),
                                        ([7, 6, 5, 8], ['<', '>'])]):
        for own in (False, True):
            for log in (True, False):
                for bits in range(8):
                    c = Solve(r)
                    k = c.k
                    pts = [[vals[0]] + [1] * len(senses)]
                    for i in range(3):
                        good = bits >> i & 1
                        zs = [(inside_ if good or j < len(senses) - 1 else outside)[s][(i + j) % 2] for j, s in enumerate(senses)]
                        pts.append([vals[i + 1]] + zs)

                    def code(st, c=c, k=k, pts=pts, senses=senses, own=own, log=log):
                        return st, k.sp(st, 'solvecase:walk', c.val(st, pts), c.val(st, senses), own, log)

                    def want(st, c=c, k=k, pts=pts, senses=senses, log=log):
                        return k.sp(st, 'walk', c.val(st, pts), c.val(st, senses), log)
                    k.eq('iteration.%d.%s.%s.%d' % (n, 'own' if own else 'base', 'log' if log else 'quiet', bits), wl, RULE, code, want)
    for n, senses in enumerate((['<', '>', '='], ['=', '<', '<'], ['>', '=', '>'])):
        c = Solve(r)
        k = c.k
        G = c.ss('r0 r1 r2')
        k.eq('feasible.' + ''.join(senses), (OP + 'optsolver', 'OptSolver.is_feasible'), RULE,
             lambda st, c=c, k=k, G=G, senses=senses: (st, k.sp(st, 'solvecase:is_feasible', c.val(st, G), c.val(st, senses))),
             lambda st, c=c, k=k, G=G, senses=senses: k.sp(st, 'is_feasible', c.val(st, G), c.val(st, senses)), inside(G, -1000, 1000), assume=True)


def sequential(r):
    F = Fraction
    BND = [(-3, 40), (1, 60), (-20, 7)]
    WN = [17, 4, -9]
    ws = (OP + 'slp', 'SLP.take_action')
    wm = (OP + 'mislp', 'MISLP.take_action')
    sets = [[[4, 9, 11, 15, 30], None, None], [None, [2, 12, 20, 26], [-8, 5, 6]], [None, None, None], [[3, 6], [1, 30, 50], None]]
    for mixed in (False, True):
        for n, (lname, idx) in enumerate(LOCKS):
            for m, senses in enumerate((['<', '>', '=', '<'], ['=', '<', '>', '='], ['>', '=', '<', '>'])):
                for q, (limits, rel) in enumerate((([F(1, 5), F(1, 4)], False), ([F(1, 10), F(3, 10)], True), ([F(9, 10), F(4, 5)], False))):
                    slack = mixed or (n + m + q) % 3 != 0
                    vals = sets[(n + q) % 4] if mixed else sets[2]
                    free = [i for i in range(3) if i not in idx]
                    x0 = [(10 if vals[i] is None else vals[i][(m + q) % len(vals[i])]) if i < 2 else 5 if vals[i] is None else 6 for i in free]
                    sol = [F(9) if vals[i] is None else F(vals[i][(m + 1) % len(vals[i])]) for i in free]
                    if 2 in free:
                        sol[-1] = F(4) if vals[2] is None else F(5)
                    ny = sum(len(vals[i]) for i in free if vals[i] is not None) if mixed else 0
                    nf = len(free)
                    bsol = F(1, 2) if m == 1 else F(3)
                    c = Solve(r, values=sol + ([bsol] if slack or mixed else []) + [0] * ny, n=nf if slack else 99)
                    k = c.k
                    cf, g1, g2 = c.c('f', 5), c.c('g', 5), c.c('h', 5)
                    ca = [(c.c('a', 3), k.s('b1', '?')), (c.c('b', 3), None if m == 2 else k.s('b2', '?'))]
                    lock = [(i, vals[i][-1] if vals[i] else WN[i]) for i in idx]
                    beta, C, gam = F(12), F(700), F(1, 50)
                    kind = 'MAX' if (m + q) % 3 == 1 else 'MIN'

                    def code(st, c=c, k=k, cf=cf, g1=g1, g2=g2, ca=ca, senses=senses, lock=lock, vals=vals, x0=x0, limits=limits, rel=rel,
                             slack=slack, mixed=mixed, beta=beta, C=C, gam=gam, kind=kind):
                        del c.programs[:]
                        opt = k.dct(st, dict(move_limits=c.val(st, limits), gamma=k.n(gam), C=k.n(C), beta=k.n(beta if slack else 0),
                                         move_limit_type='relative' if rel else 'range'))
                        out = k.sp(st, 'solvecase:sequential', mixed, *([c.val(st, v) for v in (cf, [g1, g2], ca, senses, lock, BND, vals, x0)]
                                                                        + [opt, kind]))
                        return st, k.lst(st, out, *[c.shown(st, p) for p in c.programs])

                    def want(st, c=c, k=k, cf=cf, g1=g1, g2=g2, ca=ca, senses=senses, lock=lock, vals=vals, x0=x0, limits=limits, rel=rel,
                             slack=slack, mixed=mixed, beta=beta, C=C, gam=gam, sol=sol, bsol=bsol, kind=kind):
                        out = [[b - a for a, b in zip(x0, sol)], sol, [F(0)] * len(sol), sol]
                        ps = []
                        for i, x in enumerate((x0, sol)):
                            lim = limits if i == 0 else [v * (1 - gam) for v in limits]
                            b = beta
                            if i:
                                b = beta * (1 - gam) if mixed else bsol if bsol < 1 else beta
                            args = [c.val(st, v) for v in (cf, [g1, g2], ca, senses, lock, BND, vals, x, lim, rel, b if slack else None,
                                                           C if mixed or i == 0 else C * (1 + gam), kind)]
                            ps.append(c.sorted_rows(st, k.sp(st, 'program', mixed, *args)))
                        return k.lst(st, c.val(st, out), *ps)
                    k.eq('%s.%s.%s.%d' % ('MISLP' if mixed else 'SLP', lname, ''.join(senses), q), wm if mixed else ws, RULE, code, want)
        c = Solve(r, values=[F(5)] * 3 + [F(0)], n=3, status=2)
        k = c.k
        k.eq('%s.infeasible' % ('MISLP' if mixed else 'SLP'), wm if mixed else ws, RULE,
             lambda st, c=c, k=k, mixed=mixed: (st, k.items(st, k.sp(st, 'solvecase:sequential', mixed, *([c.val(st, v) for v in (
                 [1] * 5, [[1, 2, 3, 4, 5]], [], ['<'], [], BND, [None] * 3, [2, 3, 4])] + [k.dct(st, {})])))[0]),
             lambda st, c=c, k=k: c.val(st, [0, 0, 0]))


def asymptotes(r):
    F = Fraction
    BND = [(-3, 40), (1, 60), (-20, 7)]
    w = (OP + 'mma', 'MMA.take_action')
    paths = [[[10, 20, 5]], [[10, 20, 5], [12, 22, -1]], [[10, 20, 5], [12, 22, -1], [15, 10, -1]], [[10, 20, 5], [8, 22, 5], [6, 40, 7]],
             [[1, 2, 3], [10, 20, 5], [12, 12, -1], [11, 1, 7]]]
    LU = [([-5, -6, -40], [30, 90, 20]), ([-500, 11, -2], [13, 23, 900]), ([7, -900, -30], [700, 30, 8])]
    for n, (lname, idx) in enumerate(LOCKS[:1]):
        for i, path in enumerate(paths):
            for j, (L, U) in enumerate(LU if len(path) > 2 else LU[:1]):
                free = [a for a in range(3) if a not in idx]
                best = [9, 8, 2][:len(free)]
                c = Solve(r, x=best, f=3)
                k = c.k
                lock = [(a, 4) for a in idx]
                pts, Ls, Us = [[p[a] for a in free] for p in path], [[L[a] for a in free]], [[U[a] for a in free]]

                def code(st, c=c, k=k, lock=lock, pts=pts, Ls=Ls, Us=Us):
                    del c.calls[:]
                    out = k.sp(st, 'solvecase:asymptotes', *[c.val(st, v) for v in ([1, 2, 3, 4, 0], BND, pts, Ls, Us, lock)])
                    h = k.items(st, c.handed(st, pts[-1]))
                    return st, k.lst(st, *(k.items(st, out) + h[3:]))

                def want(st, c=c, k=k, lock=lock, pts=pts, Ls=Ls, Us=Us, best=best):
                    q = k.items(st, k.sp(st, 'asymptotes', *[c.val(st, v) for v in (BND, pts, Ls, Us, lock)]))
                    return k.lst(st, q[0], q[1], c.val(st, best), c.val(st, best), q[2], q[3])
                k.eq('MMA.%s.%d.%d' % (lname, i, j), w, RULE, code, want)
    ws = (OP + 'optsolver', 'OptSolver.stopping_criterion')
    e = F(1, 10 ** 8)
    for n, (kind, a, b, tol) in enumerate([
            ('x', [3, 4], [3, 4], None), ('x', [3, 4], [3, 4 + 4 * e], None), ('x', [3, 4], [3, 4 - 6 * e], None), ('x', [0, 0], [0, 0], None),
            ('x', [3, -4], [F(31, 10), -4], F(1, 40)), ('x', [3, -4], [F(31, 10), -4], F(1, 60)), ('x', [1, 1], [100, 100], F(1, 2)),
            ('x', [100, 100], [1, 1], F(1, 2)), ('f', 5, 5, None), ('f', 5, 5 + F(4, 10 ** 4), None), ('f', -5, -5 + F(4, 10 ** 4), None),
            ('f', -5, -5 - F(6, 10 ** 4), None), ('f', 0, e, None), ('f', 0, 2 * e, None), ('f', 10, 12, [1, F(1, 10)]), ('f', 10, 7, [1, F(1, 10)]),
            ('f', 10, F(121, 10), [1, F(1, 10)])]):
        c = Solve(r)
        c.k.eq(
            'stopping.%d' % n, ws, RULE,
            lambda st, c=c, z=(kind, a, b, tol): (st, c.k.sp(st, 'solvecase:stopping', *[c.val(st, v) for v in z])),
            lambda st, c=c, z=(kind, a, b, tol): c.k.sp(st, 'stopping', *[c.val(st, v) for v in z]))
