"""C19: variables, functions, penalties and approximations of optimisation problems."""
from fractions import Fraction

from ..kit import Kit
from .. import terms as t

EXPLAIN = ('Scenarios that build optimisation problems through the library (variables of every kind with targets, scaling and locking; '
           'objectives and constraints with and without structural analysis; several load cases; histories of evaluations) with symbolic '
           'coefficients and points, compared with the reference meaning of the problem data.')
RULE = 'problem data evaluated as stated'
SO = 'metku.optimization.structopt'
VA = 'metku.optimization.variables'
OB = 'metku.optimization.objective'
CO = 'metku.optimization.constraints'
OF = 'metku.optimization.opt_functions'
VG = 'metku.optimization.variable_group'
P = 'OptimizationProblem.'


class Case:
    """Builds the same arguments for the scenario and for the reference."""

    def __init__(self, r, hints=None):
        self.k = Kit(r, 'opt', hints=hints)

    def val(self, st, v):
        k = self.k
        if isinstance(v, list):
            return k.lst(st, *[self.val(st, x) for x in v])
        if isinstance(v, tuple):
            return k.tup(*[self.val(st, x) for x in v])
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, Fraction)):
            return k.n(v)
        return v

    def eq(self, key, where, name, want, code, ref=None, ctx=None, assume=False):
        """scenario `name` with arguments `code` equals reference `want` with arguments `ref`."""
        k = self.k
        k.eq(key, where, RULE, lambda st: (st, k.sp(st, 'optcase:' + name, *[self.val(st, v) for v in code])),
             lambda st: k.sp(st, want, *[self.val(st, v) for v in (ref if ref is not None else code)]), ctx, assume=assume)

    def ss(self, names, sign='?'):
        return self.k.ss(names, sign)

    def c(self, tag, n=6):
        return [self.k.s('%s%d' % (tag, i), '?') for i in range(n)]


def positive(*qs):
    c = t.Ctx()
    for q in qs:
        c = c.with_sign(q, 1)
    return c


def inside(xs, a=-50, b=50):
    return positive(*[t.sub(x, t.num(a)) for x in xs], *[t.sub(t.num(b), x) for x in xs])


def run(r):
    variables(r)
    problems(r)
    linearisation(r)
    penalties(r)
    approximations(r)


def variables(r):
    c = Case(r)
    v, w, u, a, b = c.ss('v w u a b')
    s = c.k.s('s')
    ws = (VA, 'Variable.substitute')
    for how in ('target', 'target_object', 'target_objects', 'target_properties'):
        for nm, sc in (('', None), ('.scaled', s)):
            c.eq('substitute.%s%s' % (how, nm), ws, 'sub_plain', 'sub_plain', [v, sc, how])
    for nm, sc in (('', None), ('.scaled', s)):
        c.eq('substitute.function' + nm, ws, 'sub_fun_plain', 'sub_fun', [v, sc, a, b])
        c.eq('substitute.section.function' + nm, (VA, 'CrossSectionVariable.substitute'), 'sub_fun_section', 'sub_fun', [v, sc, a, b])
        c.eq('substitute.section' + nm, (VA, 'CrossSectionVariable.substitute'), 'sub_section', 'sub_section', [v, sc])
    for how in ('none', 'value', 'zero'):
        c.eq('lock.' + how, (VA, 'Variable.lock'), 'locked', 'locked', [v, w, u, how])
    vals = c.ss('p0 p1 p2 p3')
    for i, j, single in ((0, 3, True), (2, 0, True), (3, 1, False), (1, 2, False)):
        c.eq('index.%d.%d' % (i, j), (VA, 'IndexVariable.substitute'), 'index', 'index', [vals, i, j, single], [vals, i, j])
    for prop in ('member', 'profile', 'cross_section'):
        for seq in ([0, 1], [1, 0], [0, 0], [1, 1]):
            c.eq('binary.%s.%s' % (prop, ''.join(map(str, seq))), ws, 'binary', 'binary', [prop, seq])
    D = [Fraction(9, 2), Fraction(54, 10), 2, Fraction(112, 10), 7]
    x = c.k.s('x', '?')
    for nm, val in (('sorted', sorted(D)), ('unsorted', D), ('equal', [3, 1, 3])):
        c.eq('discrete.' + nm, (VA, 'DiscreteVariable.discrete_violation'), 'discrete', 'discrete', [val, x])
    for y in (3, Fraction(9, 2), 7, 11):
        c.eq('discrete.neighbours.%s' % y, (VA, 'DiscreteVariable.smaller_discrete_value'), 'neighbours', 'neighbours', [D, y])
    for n, (l, h, y, want) in enumerate([(2, 7, 3, [1, 0]), (2, 7, 8, [0, 0]), (2, 7, 1, [0, 0]), (2, 7, 7, [1, 0]), (2, 7, 2, [1, 0]),
                                         (2, 7, Fraction(5, 2) + Fraction(1, 4), [0, Fraction(1, 4)]),
                                         (2, 7, Fraction(350001, 100000), [0, Fraction(49999, 100000)]),
                                         (2, 7, Fraction(400001, 100000), [1, 0])]):
        c.k.eq('integer.%d' % n, (VA, 'IntegerVariable.is_allowed_value'), RULE,
               lambda st, l=l, h=h, y=y: (st, c.k.sp(st, 'optcase:integer', c.k.n(l), c.k.n(h), c.k.n(y))),
               lambda st, w=want: c.val(st, w))
    y1, y2 = c.ss('y1 y2')
    one, two = c.k.n(1), c.k.n(2)
    c.k.eq('group.continuous', (VG, 'VariableGroup.__post_init__'), RULE,
           lambda st: (st, c.k.sp(st, 'optcase:group_continuous', c.val(st, [y1, y2]))),
           lambda st: c.val(st, [1, 10, 5, y1, y1, 3, y1, y1, 6, 2, 20, 6, y1, y1, y2, y1, y1, y2]))
    c.k.eq('group.discrete', (VG, 'VariableGroup.__post_init__'), RULE,
           lambda st: (st, c.k.sp(st, 'optcase:group_discrete', c.val(st, [y1, y2]))),
           lambda st: c.val(st, [2, 4, 1, y1, 7, 9, y2, y1]))


LOCKS = [('free', []), ('first', [0]), ('middle', [1]), ('last', [2]), ('two', [0, 2]), ('ends', [0, 1])]


def problems(r):
    c = Case(r)
    X = c.ss('x0 x1 x2')
    Y = c.ss('y0 y1 y2')
    W = c.ss('w0 w1 w2')
    cf, g1, g2, g3 = c.c('f'), c.c('g'), c.c('h'), c.c('k')
    box = inside(X + Y + W)
    # points of constraints are fixed: an evaluation within the tolerance of the previous point may reuse it
    XN, YN, WN = [3, -7, 11], [-5, 13, 2], [17, 4, -9]
    wo, wc = (OB, 'ObjectiveFunction.__call__'), (CO, 'Constraint.__call__')
    for nm, idx in LOCKS:
        lock = [(i, W[i]) for i in idx]
        x = [X[i] for i in range(3) if i not in idx]
        y = [Y[i] for i in range(3) if i not in idx]
        for kind in ('MIN', 'MAX'):
            c.eq('objective.%s.%s' % (kind, nm), wo, 'objective', 'objective', [x, cf, kind, lock], [x, cf, kind, lock, False], box, True)
        c.eq('objective.again.' + nm, wo, 'objective', 'objective', [x, cf, 'MIN', lock, 'constructor', y],
             [x, cf, 'MIN', lock, False], box, True)
        c.eq('objective.linear.' + nm, (OB, 'LinearObjective.evaluate'), 'linear_objective', 'linear_objective',
             [x, g1[:3], 'MAX' if len(idx) == 1 else 'MIN', lock], ctx=box, assume=True)
        lockn = [(i, WN[i]) for i in idx]
        xn = [XN[i] for i in range(3) if i not in idx]
        yn = [YN[i] for i in range(3) if i not in idx]
        c.eq('constraints.' + nm, wc, 'constraints', 'constraints', [[xn, yn], [g1, g2, g3], ['ALL', 'ULS', 'ULS'], lockn],
             [[xn, yn], [g1, g2, g3], lockn, False])
        ca = [(g1[:3], g1[3]), (g2[:3], g2[3])]
        c.eq('linear.' + nm, (CO, 'LinearConstraint.__call__'), 'linear', 'linear', [[xn, yn], ca, lockn])
        for which in ('all', 'eq', 'ineq', 'nonlin'):
            c.eq('evaluate.%s.%s' % (which, nm), (SO, P + 'eval_cons'), 'evaluated', 'evaluated',
                 [xn, [g1, g2], [(g3[:3], g3[3]), (g2[:3], g2[4])], ['<', '=', '>', '<'], lockn, which])
        c.eq('substitution.' + nm, (SO, P + 'substitute_variables'), 'substitution', 'substitution_want',
             [[x, y], lock, [(-3, 4), (0, 50), (-50, -1)]], ctx=box, assume=True)
        c.eq('membership.' + nm, (SO, P + 'add'), 'membership', 'membership', [lock], ctx=box, assume=True)
    for how in ('constructor', 'many', 'single'):
        c.eq('objective.' + how, wo, 'objective', 'objective', [X, cf, 'MIN', [], how], [X, cf, 'MIN', [], False], box, True)
        c.eq('constraints.' + how, wc, 'constraints', 'constraints', [[XN, YN, XN], [g1, g2], ['ULS', 'SLS'], [], how],
             [[XN, YN, XN], [g1, g2], [], False])
    c.eq('objective.negative', wo, 'objective', 'objective', [X, cf, 'MAX', [], 'add', None, True], [X, cf, 'MAX', [], True], box, True)
    c.eq('constraints.negative', wc, 'constraints', 'constraints', [[XN, YN], [g1, g2], ['ULS', 'ALL'], [], 'add', True],
         [[XN, YN], [g1, g2], [], True])
    c.eq('linear.index', (CO, 'LinearConstraint.__call__'), 'linear', 'linear',
         [[[3, 2, 7], [5, 0, -4]], [(g1[:3], g1[3])], [], None, 'index'], [[[3, 2, 7], [5, 0, -4]], [(g1[:3], g1[3])], []])
    G = c.ss('r0 r1 r2')
    for senses in (['<', '>', '='], ['=', '<', '<'], ['>', '=', '>']):
        for at in (True, False):
            c.eq('feasible.%s.%s' % (''.join(senses), 'point' if at else 'current'), (SO, P + 'feasible'), 'feasible', 'feasible',
                 [G, senses, at], [G, senses], inside(G, -1000, 1000), True)


def linearisation(r):
    cases = [('free', [], [2, 3, 5], 50), ('first', [0], [3, 5], 50), ('middle', [1], [-2, 5], 50), ('last', [2], [0, 7], 50),
             ('bound', [], [50, 3, -4], 50), ('bounds', [], [50, 50, 50], 50)]
    for nm, idx, x, ub in cases:
        c = Case(r)
        cf, g1, g2, g3 = c.c('f'), c.c('g'), c.c('h'), c.c('k')
        W = c.ss('w0 w1 w2')
        lock = [(i, W[i]) for i in idx]
        c.eq('linearize.' + nm, (SO, P + 'linearize'), 'linearized', 'linearized',
             [x, cf, [g1, g2], [(g3[:3], g3[3])], ['<', '>', '='], lock])
        c.eq('linearize.rhs.' + nm, (SO, P + 'linearize'), 'linearized', 'linearized',
             [x, cf, [g1], [(g3[:3], None), (g2[:3], g2[3])], ['<', '>', '='], lock])
        c.eq('linearize.after.' + nm, (SO, P + 'linearize'), 'after_linearize', 'after_linearize', [x, cf, [g1, g2], lock])
    c = Case(r)
    cf, g1 = c.c('f'), c.c('g')
    A, B, C = c.ss('q0 q1 q2')
    # constraints far from being violated are dropped on request
    far, near, low, eq = [-40, 1, 1, 0, 0, 0], [-3, 1, 1, 0, 0, 0], [40, 1, -1, 0, 0, 0], [90, 1, 1, 0, 0, 0]
    cons = [g1, far, near, low, eq]
    for x in ([2, 1, 4], [1, 2, -3]):
        g = c.k
        c.eq('linearize.potential.%d' % x[0], (SO, P + 'linearize'), 'linearized', 'linearized',
             [x, cf, [far, near, low, eq], [([1, 1, 1], 99), ([1, 2, 3], 9)], ['<', '<', '>', '=', '<', '<'], [], True],
             [x, cf, [far, near, low, eq], [([1, 1, 1], 99), ([1, 2, 3], 9)], ['<', '<', '>', '=', '<', '<'], [],
              [0, 2, 4] if x[2] == 4 else [0, 2, 4, 5]])


def penalties(r):
    w = {'exact': 'exact_penalty_fun', 'exterior': 'exterior_penalty_fun', 'barrier': 'barrier_fun',
         'lagrangian': 'augmented_lagrangian', 'multipliers': 'update_lag_mult'}
    free = [(None, None)] * 3
    some = [(-3, 40), (2, None), (None, 7)]
    # each constraint value is one free coefficient: every sign pattern is covered
    for senses in (['<'], ['>'], ['='], ['<', '>'], ['=', '<']):
        c = Case(r)
        R, Q = c.k.s('R'), c.k.s('Q')
        f0 = c.k.s('f0', '?')
        G = c.ss('r0 r1')[:len(senses)]
        cf = [f0, 2, -1, 1, 1, 3]
        cg = [[g, 1, 2, -1, 3, 1] for g in G]
        x = [4, 5, 6]
        for kind, p in (('exact', 1), ('exterior', 2), ('exterior', 3)):
            c.eq('penalty.%s.%s.%d' % (kind, ''.join(senses), p), (SO, P + w[kind]), 'penalty', 'penalty',
                 [x, cf, cg, senses, kind, R, p, free], [x, cf, cg, senses, kind, R, p, free, None])
        M = c.ss('m0 m1')[:len(senses)]
        mult = [M, [(1, 1)] * 3]
        c.eq('lagrangian.' + ''.join(senses), (SO, P + w['lagrangian']), 'penalty', 'lagrangian',
             [x, cf, cg, senses, 'lagrangian', R, Q, free, mult], [x, cf, cg, senses, R, Q, free, mult])
        c.eq('multipliers.' + ''.join(senses), (SO, P + w['multipliers']), 'penalty', 'multipliers',
             [x, cf, cg, senses, 'multipliers', R, Q, free, mult], [x, cg, senses, R, Q, free, mult])
        for bar in ('log', 'inverse'):
            for bn, bounds in (('', free), ('.bounds', some)):
                inner = positive(*[(t.neg(t.add(g, t.num(32))) if s == '<' else t.add(g, t.num(32))) for g, s in zip(G, senses) if s != '='])
                c.eq('barrier.%s.%s%s' % (bar, ''.join(senses), bn), (SO, P + w['barrier']), 'penalty', 'penalty',
                     [x, cf, cg, senses, 'barrier', R, None, bounds, None, bar], [x, cf, cg, senses, 'barrier', R, None, bounds, bar],
                     ctx=inner)
    # variable bounds
    for i in range(3):
        for a, b in ((-3, 40), (2, None), (None, 7)):
            c = Case(r)
            R, Q = c.k.s('R'), c.k.s('Q')
            y, ml, mu = c.ss('y ml mu')
            x = [4, 5, 6]
            x[i] = y
            bounds = list(free)
            bounds[i] = (a, b)
            cf = c.c('f')
            lim = inside([y], -3 if a is None else a, 40 if b is None else b)
            mult = [[], [(1, 1)] * 3]
            mult[1][i] = (ml, mu)
            nm = '.%d.%s.%s' % (i, a, b)
            for kind in ('exact', 'exterior'):
                c.eq('bounds.%s%s' % (kind, nm), (SO, P + w[kind]), 'penalty', 'penalty',
                     [x, cf, [], [], kind, R, 2, bounds], [x, cf, [], [], kind, R, 2, bounds, None], ctx=lim)
            c.eq('bounds.barrier' + nm, (SO, P + w['barrier']), 'penalty', 'penalty',
                 [x, cf, [], [], 'barrier', R, None, bounds, None, 'log'], [x, cf, [], [], 'barrier', R, None, bounds, 'log'], ctx=lim)
            c.eq('bounds.lagrangian' + nm, (SO, P + w['lagrangian']), 'penalty', 'lagrangian',
                 [x, cf, [], [], 'lagrangian', R, Q, bounds, mult], [x, cf, [], [], R, Q, bounds, mult], ctx=lim)
            c.eq('bounds.multipliers' + nm, (SO, P + w['multipliers']), 'penalty', 'multipliers',
                 [x, cf, [], [], 'multipliers', R, Q, bounds, mult], [x, [], [], R, Q, bounds, mult])


def approximations(r):
    c = Case(r)
    C4 = c.c('c', 4)
    u, v = c.ss('u v')
    for x in ([2, 3], [-4, 0], [0, 5]):
        nm = '%s.%s' % tuple(x)
        c.eq('gradient.' + nm, (OF, 'NumGrad'), 'gradient', 'gradient', [C4, x])
        c.eq('linear model.' + nm, (OF, 'Linearize'), 'linear_model', 'linear_model', [C4, x, None])
    c.eq('linear model.given', (OF, 'Linearize'), 'linear_given', 'linear_model', [C4, [u, v], [C4[2], u]])
    for n in (1, 2, 3):
        c = Case(r)
        xk, x, d = c.c('a', n), c.c('x', n), c.c('d', n)
        f, y = c.k.s('f', '?'), c.c('y', n)
        lo, hi = c.c('L', n), c.c('U', n)
        pos = positive(*xk, *x, *y)
        c.eq('conlin.%d' % n, (OF, 'conlin_fun'), 'conlin', 'conlin', [xk, f, d, x], ctx=pos)
        c.eq('conlin.twice.%d' % n, (OF, 'conlin_fun'), 'conlin_twice', 'conlin', [xk, f, d, x, y], [xk, f, d, x], ctx=pos)
        between = positive(*[t.sub(a, b) for a, b in zip(xk, lo)], *[t.sub(a, b) for a, b in zip(hi, xk)],
                           *[t.sub(a, b) for a, b in zip(x, lo)], *[t.sub(a, b) for a, b in zip(hi, x)])
        c.eq('mma.%d' % n, (OF, 'mma_fun'), 'mma', 'mma', [xk, f, d, lo, hi, x], ctx=between)
        c.eq('mma.class.%d' % n, (OF, 'MMAFunction'), 'mma_class', 'mma_class', [xk, f, d, lo, hi, x], ctx=between)
    # approximations of whole problems
    c = Case(r)
    cf, g1, g2 = c.c('f'), c.c('g'), c.c('h')
    lin = [(g2[:3], g2[3])]
    for n, (x, y) in enumerate([([2, 3, 5], [4, 1, 4]), ([7, 1, 2], [1, 2, 3])]):
        for senses in (['<', '>'], ['=', '<']):
            for how in ('conlin', 'mma'):
                args = [x, y, cf, [g1], lin, senses, how]
                L, U = [-5, -60, 1], [90, 8, 45]
                args += [L, U, Fraction(1, 2)]
                c.eq('problem.%s.%d.%s' % (how, n, ''.join(senses)), (SO, P + how), 'approximated', 'approximated', args)
    c = Case(r)
    D = [Fraction(9, 2), Fraction(54, 10), Fraction(723, 100), Fraction(112, 10), Fraction(134, 10)]
    for n, (kinds, x, kk) in enumerate([([('D', D), ('I', (1, 10))], [Fraction(66, 10), Fraction(4445, 1000)], 3),
                                        ([('D', D[::-1]), ('I', (0, 2)), ('D', [3, 7, 5])], [20, -1, Fraction(51, 10)], 2),
                                        ([('I', (2, 4))], [3 + Fraction(1, 10)], 5)]):
        c.eq('neighborhood.%d' % n, (SO, P + 'discrete_neighborhood'), 'neighborhood', 'neighborhood', [kinds, x, kk])
