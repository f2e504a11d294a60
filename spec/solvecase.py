"""Optimisation solvers driven through their interface, with stand-ins for the numerical libraries (scenarios of the C20 rules)."""
import numpy as np

from metku.optimization.structopt import OptimizationProblem
from metku.optimization.objective import ObjectiveFunction
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.variables import Variable, DiscreteVariable, BinaryVariable
from metku.optimization.solvers.optsolver import OptSolver
from metku.optimization.solvers.slp import SLP
from metku.optimization.solvers.mislp import MISLP
from metku.optimization.solvers.mma import MMA


class Result:
    """Outcome of a numerical minimisation."""

    def __init__(self, x, fun, success, constr_violation=0):
        self.x = x
        self.fun = fun
        self.success = success
        self.constr_violation = constr_violation
        self.message = ''
        self.nit = 1


class Bounds:
    def __init__(self, lb, ub, keep_feasible=False):
        self.lb = lb
        self.ub = ub


class NonlinearLimits:
    def __init__(self, fun, lb, ub, **kw):
        self.fun = fun
        self.lb = lb
        self.ub = ub


class LinearLimits:
    def __init__(self, A, lb, ub, **kw):
        self.A = A
        self.lb = lb
        self.ub = ub

    def fun(self, x):
        if len(self.A) != len(x):
            raise ValueError('number of coefficients')
        return sum([a * y for a, y in zip(self.A, x)])


class Expr:
    """Linear expression: coefficients and constant."""

    def __init__(self, coef, const=0):
        self.coef = coef
        self.const = const

    def __add__(self, o):
        if isinstance(o, Expr):
            return Expr([a + b for a, b in zip(self.coef, o.coef)], self.const + o.const)
        return Expr(list(self.coef), self.const + o)

    def __radd__(self, o):
        return self + o

    def __mul__(self, o):
        return Expr([a * o for a in self.coef], self.const * o)

    def __rmul__(self, o):
        return self * o

    def __neg__(self):
        return self * (-1)

    def __sub__(self, o):
        return self + o * (-1)

    def __rsub__(self, o):
        return self * (-1) + o

    def __le__(self, o):
        return Row(self - o, '<')

    def __ge__(self, o):
        return Row(self - o, '>')

    def __eq__(self, o):
        return Row(self - o, '=')


class Row:
    def __init__(self, expr, sense):
        self.expr = expr
        self.sense = sense


class Unknown(Expr):
    """Variable of a linear program."""

    def __init__(self, i, n, lb, ub, value):
        super().__init__([1 if j == i else 0 for j in range(n)])
        self.lb = lb
        self.ub = ub
        self.value = value

    def solution_value(self):
        return self.value

    SolutionValue = solution_value


class Program:
    """Linear or mixed-integer program that records what it is given and returns a given solution.

    Unknowns are numbered in the order of creation, apart from the feasibility variable 'beta', which has number n.
    """

    def __init__(self, values, status, n):
        self.values = values
        self.status = status
        self.n = n
        self.made = 0
        self.lower = [0 for v in values]
        self.upper = [0 for v in values]
        self.rows = []
        self.objective = None

    def NumVar(self, lb, ub, name=''):
        if name.lower() == 'beta':
            i = self.n
        else:
            i = self.made
            self.made = i + (2 if i + 1 == self.n else 1)
        self.lower[i] = lb
        self.upper[i] = ub
        return Unknown(i, len(self.values), lb, ub, self.values[i])

    def BoolVar(self, name=''):
        return self.NumVar(0, 1, name)

    IntVar = NumVar

    def Sum(self, terms):
        s = Expr([0 for v in self.values])
        for e in terms:
            s = s + e
        return s

    def Add(self, row):
        self.rows.append(row)

    def Minimize(self, e):
        self.objective = e

    def Solve(self):
        return self.status

    def given(self):
        """Rows 'coefficients, constant' of expressions that are not positive; objective; bounds."""
        rows = []
        for r in self.rows:
            if r.sense != '>':
                rows.append(list(r.expr.coef) + [r.expr.const])
            if r.sense != '<':
                rows.append([-a for a in r.expr.coef] + [-r.expr.const])
        return [rows, list(self.objective.coef) + [self.objective.const], self.lower, self.upper]


class Part:
    def __init__(self, A):
        self.A = A


def pick(c):
    return lambda x: c[0] + c[1] * x[0] + c[2] * x[1] + c[3] * x[2] + c[4] * x[0] * x[1]


def problem(cf, cg, ca, senses, lock, bounds, kind='MIN', values=None):
    vs = []
    for i, (a, b) in enumerate(bounds):
        if values is not None and values[i] is not None:
            vs.append(DiscreteVariable('d', values[i], value=values[i][0]))
        else:
            vs.append(Variable('x', a, b, value=0))
    for i, v in lock:
        vs[i].lock(v)
    P = OptimizationProblem('P', vs)
    P.add(ObjectiveFunction('f', pick(cf), obj_type=kind))
    n = len(cg)
    for c, s in zip(cg, senses):
        P.add(NonLinearConstraint(pick(c), con_type=s, name='g'))
    for (a, b), s in zip(ca, senses[n:]):
        P.add(LinearConstraint(a, vs[0] if b is None else b, con_type=s, name='h'))
    return P


class Walker(OptSolver):
    """Solver that visits given points."""

    def __init__(self, points):
        super().__init__()
        self.points = points
        self.turn = 0
        self.step_length = 1
        self.step_factor = 0

    def take_action(self):
        p = np.array(self.points[self.turn], dtype=float)
        self.turn += 1
        return p - self.X


class Other(Walker):
    """Solver with a step of its own, working on the same array all the time."""

    def step(self, action):
        self.X += action
        self.problem.substitute_variables(self.X)
        return self.X, 1, False, 'INFO'


def coordinate(i):
    return lambda x: x[i]


def walk(points, senses, own, log):
    """Objective is the first coordinate of the points, constraints are the others."""
    n = len(points[0])
    vs = [Variable('x', -1000, 1000, value=0) for i in range(n)]
    P = OptimizationProblem('P', vs)
    P.add(ObjectiveFunction('f', coordinate(0)))
    for i, s in enumerate(senses):
        P.add(NonLinearConstraint(coordinate(i + 1), con_type=s, name='g'))
    s = Other(points[1:]) if own else Walker(points[1:])
    f, x = s.solve(P, x0=points[0], maxiter=len(points) - 1, log=log)
    out = [f] + list(x) + [s.best_f] + list(s.best_x)
    hist = [list(y) for y in s.xvals]
    vals = list(s.fvals)
    return [out, hist, vals, list(P.fvals), [list(y) for y in P.states], [list(y) for y in P.gvals]]


def is_feasible(vals, senses):
    vs = [Variable('x', -1000, 1000, value=0) for v in vals]
    P = OptimizationProblem('P', vs)
    for i, s in enumerate(senses):
        P.add(NonLinearConstraint(coordinate(i), con_type=s, name='g'))
    s = OptSolver()
    s.problem = P
    a = s.is_feasible(vals)
    s.X = np.array(vals)
    s.calc_constraints()
    return [a, s.is_feasible()]


def sequential(mixed, cf, cg, ca, senses, lock, bounds, values, x, options, kind='MIN'):
    """Two steps of sequential linear programming."""
    P = problem(cf, cg, ca, senses, lock, bounds, kind, values)
    s = MISLP(**options) if mixed else SLP(**options)
    s.problem = P
    s.X = np.array(x, dtype=float)
    P.substitute_variables(s.X)
    out = []
    for i in range(2):
        a = s.take_action()
        out.append(list(a))
        y, reward, done, info = s.step(a)
        s.X = y
        P.substitute_variables(y)
        out.append(list(y))
    return out


def asymptotes(cf, bounds, points, L, U, lock):
    P = problem(cf, [], [], [], lock, bounds)
    s = MMA()
    s.problem = P
    s.xvals = [np.array(p, dtype=float) for p in points]
    s.L = [np.array(v, dtype=float) for v in L]
    s.U = [np.array(v, dtype=float) for v in U]
    P.substitute_variables(s.xvals[-1])
    s.X = s.xvals[-1].copy()
    a = s.take_action()
    y, reward, done, info = s.step(a)
    return [list(s.L[-1]), list(s.U[-1]), list(y), [v.value for v in P.vars]]


def stopping(kind, a, b, tol):
    s = OptSolver()
    if kind == 'x':
        if tol is None:
            return s.stopping_criterion('x', x=[np.array(a), np.array(b)])
        return s.stopping_criterion('x', x=[np.array(a), np.array(b)], xtol=tol)
    if tol is None:
        return s.stopping_criterion('f', f=[a, b])
    return s.stopping_criterion('f', f=[a, b], abs_f_tol=tol[0], rel_f_tol=tol[1])
