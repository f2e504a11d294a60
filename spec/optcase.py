"""Optimisation problems driven through the library's interface (scenarios of the C19 rules)."""
import numpy as np

from metku.optimization.structopt import OptimizationProblem
from metku.optimization.objective import ObjectiveFunction, LinearObjective
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.variables import (Variable, IntegerVariable, IndexVariable, DiscreteVariable, BinaryVariable,
                                          BooleanVariable, CrossSectionVariable)
from metku.optimization.variable_group import VariableGroup, VariableTypeEnum
from metku.optimization.opt_functions import NumGrad, conlin_fun, mma_fun, MMAFunction, Linearize


class Part:
    """Something a variable can change."""

    def __init__(self, **kw):
        for a, v in kw.items():
            setattr(self, a, v)


class Body:
    """Structure whose results are those of its parts at the time of the last analysis of a load case."""

    def __init__(self, parts):
        self.parts = parts
        self.results = {}

    def calculate(self, load_id, support_method='', design=True):
        self.results[load_id] = [p.A for p in self.parts]


# ------------------------------------------------------------ variables
def changed(p, names):
    return [getattr(p, a) for a in names]


def sub_plain(v, scale, how):
    p, q = Part(A=1, I=2), Part(A=3, I=4)
    if how == 'target':
        x = Variable('x', 0, 100, target={'property': 'A', 'objects': [p, q]})
    elif how == 'target_object':
        x = Variable('x', 0, 100, target_property='A', target_object=p)
    elif how == 'target_objects':
        x = Variable('x', 0, 100, target_property='A', target_objects=[p, q])
    else:
        x = Variable('x', 0, 100, target_properties=['A', 'I'], target_objects=[p, q])
    if scale is not None:
        x.scale(scale)
    x.substitute(v)
    return [x.value, x.lb, x.ub] + changed(p, ['A', 'I']) + changed(q, ['A', 'I'])


def sub_fun(v, scale, a, b, cls):
    p, q = Part(A=1, I=2, W=3), Part(A=4, I=5, W=6)
    f = {'I': lambda y: a * y ** 2 + b}
    x = cls('x', 0, 100, target={'property': ['A', 'I', 'W'], 'objects': [p, q]}, target_fun=f)
    if scale is not None:
        x.scale(scale)
    x.substitute(v)
    return [x.value] + changed(p, ['A', 'I', 'W']) + changed(q, ['A', 'I', 'W'])


def sub_fun_plain(v, scale, a, b):
    return sub_fun(v, scale, a, b, Variable)


def sub_fun_section(v, scale, a, b):
    return sub_fun(v, scale, a, b, CrossSectionVariable)


def sub_section(v, scale):
    p, q = Part(cross_section=Part(A=1, I=2)), Part(cross_section=Part(A=4, I=5))
    x = CrossSectionVariable('x', 0, 100, target={'property': 'A', 'objects': [p, q]})
    if scale is not None:
        x.scale(scale)
    x.substitute(v)
    return [x.value] + changed(p.cross_section, ['A', 'I']) + changed(q.cross_section, ['A', 'I'])


def locked(v, w, u, how):
    p = Part(A=1)
    x = Variable('x', 0, 100, value=7, target={'property': 'A', 'objects': [p]})
    x.substitute(v)
    if how == 'value':
        x.lock(w)
    elif how == 'zero':
        x.lock(0)
    else:
        x.lock()
    out = [x.value, p.A]
    x.substitute(u)
    out += [x.value, p.A]
    x.unlock()
    x.substitute(u)
    return out + [x.value, p.A, 1 if x.locked else 0]


def index(values, i, j, single):
    p, q = Part(profile=None, other=0), Part(profile=None, other=0)
    x = IndexVariable('x', values, target={'property': 'profile' if single else ['profile'], 'objects': [p, q]})
    out = [x.lb, x.ub]
    x.substitute(i)
    out += [x.value, x.idx, p.profile, q.profile]
    x.lock(j)
    out += [x.value, x.idx, p.profile, q.profile]
    x.substitute(i)
    return out + [x.value, x.idx, p.profile, q.profile]


def binary(prop, vals):
    p, q = Part(profile='none', cross_section='none', active=None), Part(profile='none', cross_section='none', active=None)
    x = BinaryVariable('x', section='sec', target={'property': prop, 'objects': [p, q]})
    out = [x.lb, x.ub]
    for v in vals:
        x.substitute(v)
        out += [x.value, p.profile, p.cross_section, p.active, q.profile, q.cross_section, q.active]
    return out


def discrete(values, x):
    v = DiscreteVariable('x', values)
    return [v.lb, v.ub, 1 if v.is_allowed_value(x) else 0, v.discrete_violation(x)]


def neighbours(values, x):
    v = DiscreteVariable('x', values)
    return [v.smaller_discrete_value(x), v.larger_discrete_value(x)]


def integer(lb, ub, x):
    v = IntegerVariable('x', lb, ub)
    return [1 if v.is_allowed_value(x) else 0, v.discrete_violation(x)]


def group_continuous(v):
    p, q = Part(Iy=1, Iz=2, A=3), Part(Iy=4, Iz=5, A=6)
    g = VariableGroup('g', VariableTypeEnum.CONTINUOUS, objects=[p, q], attributes=[['Iy', 'Iz'], 'A'],
                      lower_bounds=[1, 2], upper_bounds=[10, 20], value=[5, 6])
    out = []
    for x, y in zip(g.variables, v):
        out += [x.lb, x.ub, x.value]
        x.substitute(y)
        out += changed(p, ['Iy', 'Iz', 'A']) + changed(q, ['Iy', 'Iz', 'A'])
    return out


def group_discrete(v):
    p = Part(Iy=1, A=3)
    g = VariableGroup('g', VariableTypeEnum.DISCRETE, object=p, attributes=['A', 'Iy'], values=[[4, 2, 3], [7, 9]])
    out = []
    for x, y in zip(g.variables, v):
        out += [x.lb, x.ub]
        x.substitute(y)
        out += changed(p, ['Iy', 'A'])
    return out


# ------------------------------------------------------------ problems
def functions(c, body, key):
    """f(x) bilinear in the variables and in the results of the analysis."""
    def fun(x):
        v = c[0] + c[1] * x[0] + c[2] * x[1] + c[3] * x[0] * x[2]
        if body is not None:
            r = body.results[key]
            v = v + c[4] * r[0] + c[5] * r[1] * r[2]
        return v
    return fun


class Setting:
    """Problem of three variables, each the area of one part, some of them locked to given values."""

    def __init__(self, lock=(), ids=('ALL',), senses=('<',), lb=-50, ub=50, obj_type='MIN', fem=True, grad=None, how='add'):
        self.parts = [Part(A=-1), Part(A=-2), Part(A=-3)]
        self.body = Body(self.parts)
        self.vars = [Variable(n, lb, ub, value=0, target={'property': 'A', 'objects': [p]})
                     for n, p in zip(['x0', 'x1', 'x2'], self.parts)]
        for i, v in lock:
            self.vars[i].lock(v)
        self.fem, self.obj_type, self.ids, self.senses, self.how = fem, obj_type, ids, senses, how

    def build(self, cf, cg=(), ca=(), grad=None):
        body = self.body if self.fem else None
        f = ObjectiveFunction('f', functions(cf, body, 'ALL'), obj_type=self.obj_type, fea_required=self.fem)
        cons = []
        for c, s, key in zip(cg, self.senses, self.ids):
            if key == 'ALL':
                cons.append(NonLinearConstraint(functions(c, body, key), con_type=s, name='g', fea_required=self.fem))
            else:
                cons.append(NonLinearConstraint(functions(c, body, key), con_type=s, name='g', fea_required=self.fem, load_ids=[key]))
        n = len(cons)
        for (a, b), s in zip(ca, self.senses[n:]):
            cons.append(LinearConstraint(a, self.vars[0] if b is None else b, con_type=s, name='h'))
        if self.how == 'constructor':
            return OptimizationProblem('P', self.vars, cons, f, gradient=grad, structure=self.body)
        P = OptimizationProblem('P', structure=self.body, gradient=grad)
        if self.how == 'many':
            P.add_variables(self.vars)
            P.add_constraints(cons)
        elif self.how == 'single':
            for v in self.vars:
                P.add_variable(v)
            for c in cons:
                P.add_constraint(c)
        else:
            for v in self.vars + cons:
                P.add(v)
        P.add(f)
        return P


def objective(x, cf, kind, lock=(), how='add', before=None, neg=False):
    s = Setting(lock, obj_type=kind, how=how)
    P = s.build(cf)
    if before is not None:
        P.substitute_variables(before)
        P.fea()
        P.obj(before)
    v = P.obj.neg_call(x) if neg else P.obj(x)
    return [v] + [p.A for p in s.parts] + [y.value for y in s.vars]


def linear_objective(x, c, kind, lock):
    s = Setting(lock)
    P = OptimizationProblem('P', s.vars)
    P.add(LinearObjective('f', c, kind))
    return P.obj(x)


def constraints(points, cg, ids, lock=(), how='add', neg=False):
    """Values of several constraints, on their own load cases, at several points in turn."""
    s = Setting(lock, ids, ['<'] * len(cg), how=how)
    P = s.build([0] * 6, cg)
    out = []
    for x in points:
        for c in P.cons:
            out.append(c.neg_call(x) if neg else c(x))
    return out


def linear(points, ca, lock=(), bvar=None, kind='plain', how='add'):
    s = Setting(lock, senses=['<'] * len(ca), fem=False, how=how)
    if kind == 'index':
        s.vars[1] = IndexVariable('x1', [10, 20, 30, 40], value=3)
    P = s.build([0] * 6, ca=ca)
    out = []
    for x in points:
        out += [c(x) for c in P.cons]
    return out


def evaluated(x, cg, ca, senses, lock, which):
    s = Setting(lock, ['ALL'] * len(cg), senses)
    P = s.build([0] * 6, cg, ca)
    if which == 'all':
        v = P.eval_cons(x)
    elif which == 'eq':
        v = P.eval_eq_con(x)
    elif which == 'ineq':
        v = P.eval_ineq_con(x)
    else:
        v = P.eval_nonlin_cons(x)
    return list(v)


def feasible(vals, senses, at):
    """Constraints whose values are the given numbers."""
    x = [Variable('x%d' % i, -1000, 1000, value=0) for i in range(len(vals))]
    P = OptimizationProblem('P', x)

    def pick(i):
        return lambda y: y[i]
    for i, s in enumerate(senses):
        P.add(NonLinearConstraint(pick(i), con_type=s))
    if at:
        return P.feasible(vals)
    P.substitute_variables(vals)
    return P.feasible()


def substitution(points, lock, bounds):
    s = Setting(lock)
    P = s.build([0] * 6)
    for v, (a, b) in zip(s.vars, bounds):
        v.lb, v.ub = a, b
    for x in points:
        P.substitute_variables(x)
        P.fea()
        P.fea('L')
    P.substitute_variables(points[0])
    flags = [1 if P.fea_done.get(i, False) else 0 for i in ('ALL', 'L')]
    P.substitute_variables(points[-1])
    return [p.A for p in s.parts] + [v.value for v in s.vars] + list(P.X) + flags


def membership(lock):
    s = Setting(senses=('<', '<'))
    P = s.build([0] * 6, [[1] * 6], [([1, 2, 3], 4)])
    P.add(s.vars[0])
    P.add_variables(s.vars)
    P.add(P.cons[0])
    P.add_constraints(list(P.cons))
    out = [len(P.all_vars), len(P.cons), P.nvars(), P.nnonlincons()]
    for i, v in lock:
        s.vars[i].lock(v)
    out += [P.nvars(), len(P.locked_vars)] + [v.name for v in P.vars] + [v.name for v in P.locked_vars]
    out += P.fixed_vals + list(P.xlb()) + list(P.xub()) + list(P.var_values())
    P.del_var(s.vars[1])
    out += [v.name for v in P.all_vars]
    P.vars = [s.vars[2], s.vars[1], s.vars[2]]
    return out + [v.name for v in P.all_vars] + [1 if c.problem is P else 0 for c in P.cons]


def linearized(x, cf, cg, ca, senses, lock=(), only=False, ub=50, grad=None, tol=None):
    s = Setting(lock, ['ALL'] * len(cg), senses, ub=ub)
    P = s.build(cf, cg, ca, grad=grad)
    if tol is not None:
        for c in P.cons:
            c.pot_tol = tol
    A, B, df, fx = P.linearize(x, only)
    return [[list(r) for r in A], list(B), list(df), fx, [p.A for p in s.parts], [v.value for v in s.vars], list(P.X)]


def after_linearize(x, cf, cg, lock=()):
    """Analysis results are those of the point."""
    s = Setting(lock, ['ALL'] * len(cg), ['<'] * len(cg))
    P = s.build(cf, cg)
    P.linearize(x)
    return [c(x) for c in P.cons] + [P.obj(x)]


def penalty(x, cf, cg, senses, kind, R, p=None, bounds=None, mult=None, bar=None):
    s = Setting((), ['ALL'] * len(cg), senses)
    for v, (a, b) in zip(s.vars, bounds):
        v.lb, v.ub = -1e8 if a is None else a, 1e8 if b is None else b
    P = s.build(cf, cg)
    if kind == 'exact':
        return P.exact_penalty_fun(R)(x)
    if kind == 'exterior':
        return P.exterior_penalty_fun(R, p)(x)
    if kind == 'barrier':
        return P.barrier_fun(R, bar)(x)
    for c, m in zip(P.cons, mult[0]):
        c.mult = m
    for v, (a, b) in zip(s.vars, mult[1]):
        v.lb_mult, v.ub_mult = a, b
    if kind == 'lagrangian':
        return P.augmented_lagrangian(R, p)(x)
    P.update_lag_mult(x, R, p)
    return [c.mult for c in P.cons] + [y for v in s.vars for y in (v.lb_mult, v.ub_mult)]


# ------------------------------------------------------------ approximations
def bilinear(c):
    return lambda x: c[0] + c[1] * x[0] + c[2] * x[1] + c[3] * x[0] * x[1]


def gradient(c, x):
    return list(NumGrad(bilinear(c), x))


def linear_model(c, x, own):
    a, b, d = Linearize(bilinear(c), np.array(x))
    return [list(a), b, d]


def linear_given(c, x, own):
    a, b, d = Linearize(bilinear(c), np.array(x), lambda y: np.array(own))
    return [list(a), b, d]


def conlin(xk, fk, dfk, x):
    return conlin_fun(np.array(xk), fk, np.array(dfk))(np.array(x))


def conlin_twice(xk, fk, dfk, x, y):
    f = conlin_fun(np.array(xk), fk, np.array(dfk))
    f(np.array(y))
    return f(np.array(x))


def mma(xk, fk, dfk, L, U, x):
    return mma_fun(np.array(xk), fk, np.array(dfk), np.array(L), np.array(U))(np.array(x))


def mma_class(xk, fk, dfk, L, U, x):
    f = MMAFunction(np.array(xk), fk, np.array(dfk), np.array(L), np.array(U))
    return [f(np.array(x))] + list(f.grad(np.array(x)))


def approximated(x, y, cf, cg, ca, senses, how, L=None, U=None, mu=None):
    """Values of the approximate problem at y, and of the original afterwards."""
    s = Setting((), ['ALL'] * len(cg), senses, fem=False)
    P = s.build(cf, cg, ca)
    x, y = np.array(x, dtype=float), np.array(y, dtype=float)
    Q = P.conlin(x) if how == 'conlin' else P.mma(x, np.array(U), np.array(L), mu)
    out = [Q.obj(y)] + [c(y) for c in Q.cons] + [P.obj(y)] + [c(y) for c in P.cons]
    return out + [v.lb for v in Q.vars] + [v.ub for v in Q.vars] + [c.type for c in Q.cons] + [1 if c.problem is P else 0 for c in P.cons]


def neighborhood(kinds, x, k):
    vs = []
    for i, (kind, a) in enumerate(kinds):
        if kind == 'D':
            vs.append(DiscreteVariable('x%d' % i, a))
        else:
            vs.append(IntegerVariable('x%d' % i, a[0], a[1]))
    P = OptimizationProblem('P', vs)
    return [list(p) for p in P.discrete_neighborhood(x, k)]
