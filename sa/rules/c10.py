"""C10: element matrices and internal forces of the frame analysis."""
from fractions import Fraction

from ..kit import Kit
from .. import terms as t

EXPLAIN = ('Value graphs of the global stiffness, geometric stiffness and second-order stiffness matrices and of the end forces of '
           'every element class, for end nodes, section properties, material, end releases, joint stiffnesses, axial force and nodal '
           'displacements that are symbols, compared entry by entry with the closed-form element matrices.')
RULE = 'element matrix = closed form'
FF = 'metku.framefem.framefem'
EB = 'metku.framefem.elements.ebbeam'
SR = 'metku.framefem.elements.eb_semi_rigid_beam'
ROD = 'metku.framefem.elements.rod'
SPR = 'metku.framefem.elements.springs'
CASE = 7                      # load case used for forces and displacements
RELEASES = [(2,), (5,), (2, 5), (0,), (3, 5)]


def tsum(xs, s=t.ZERO):
    for x in xs:
        s = t.add(s, x)
    return s


DIRECTIONS = {'skew': (Fraction(2, 7), Fraction(3, 7), Fraction(-6, 7)), 'up': (0, 0, 1), 'down': (0, 0, -1),
              'X': (1, 0, 0), 'back': (-1, 0, 0), 'Y': (0, 1, 0), 'rafter': (Fraction(3, 5), 0, Fraction(4, 5))}


class Frame:
    """Symbols shared by the obligations."""

    def __init__(self, k):
        self.k = k
        k.it.exact_round = 3
        for n in 'E G A I Iz J ks k1 k2'.split():
            setattr(self, n, k.s(n))
        for n in 'x1 y1 z1 dx dy dz P q1 q2'.split():
            setattr(self, n, k.s(n, '?'))
        self.x2, self.y2, self.z2 = t.add(self.x1, self.dx), t.add(self.y1, self.dy), t.add(self.z1, self.dz)
        self.L = k.s('L')

    def skew(self):
        """Symbolic length along a fixed direction with rational direction cosines."""
        g = Frame(self.k)
        d2 = (Fraction(3, 5), Fraction(-4, 5))
        d3 = (Fraction(2, 7), Fraction(3, 7), Fraction(-6, 7))
        g.dx, g.dy = [t.mul(t.num(x), self.L) for x in d2]
        g.x2, g.y2 = t.add(g.x1, g.dx), t.add(g.y1, g.dy)
        g.space = [t.mul(t.num(x), self.L) for x in d3]
        return g

    def along(self, d):
        g = self.skew()
        g.space = [t.mul(t.num(x), self.L) for x in d]
        return g

    def ends(self, dim):
        """Coordinates of both ends."""
        a = [self.x1, self.y1, self.z1][:dim]
        if dim == 2:
            return a, [self.x2, self.y2]
        return a, [t.add(x, y) for x, y in zip(a, self.space)]

    def rotation(self, st):
        v = self.k.sp(st, 'rotation', self.x1, self.y1, self.x2, self.y2)
        return self.k.it.getitem(st, v, t.ZERO), self.k.it.getitem(st, v, t.UNIT)

    def nodes(self, st, dim=2):
        k = self.k
        a, b = self.ends(dim)
        n1 = k.new(st, FF, 'FEMNode', k.n(0), *a)
        n2 = k.new(st, FF, 'FEMNode', k.n(1), *b)
        return n1, n2

    def section(self, st):
        k = self.k
        return k.new(st, FF, 'BeamSection', self.A, self.I, self.Iz, self.J)

    def material(self, st):
        k = self.k
        return k.new(st, FF, 'Material', self.E, k.s('rho'), k.s('nu'), self.G)

    def element(self, st, mod, name, rel=(), dim=2, extra=(), force=None):
        k = self.k
        n1, n2 = self.nodes(st, dim)
        if name == 'LinearSpring':
            e = k.new(st, mod, name, n1, n2, self.ks)
        else:
            sec, mat = self.section(st), self.material(st)
            if name == 'EBBeam3D':
                k.raw(st, sec, 'It', self.J)
            e = k.new(st, mod, name, n1, n2, sec, mat, *[x(st) for x in extra])
        if rel:
            k.set(st, e, 'releases', k.lst(st, *[k.n(i) for i in rel]))
        k.call(st, e, 'add_loadcase', k.n(CASE))
        if force is not None:
            f = k.it.getitem(st, k.get(st, e, 'fint'), k.n(CASE))
            k.it.setitem(st, f, 'fx', k.lst(st, force, force))
        return e

    def displace(self, st, e, dim=2, order=1):
        k = self.k
        n = 3 if dim == 2 else 6
        out = []
        for i, nd in enumerate(k.items(st, k.get(st, e, 'nodes'))):
            v = [k.s('u%d_%d' % (i, j), '?') for j in range(n)]
            k.it.setitem(st, k.get(st, nd, 'u' if order == 1 else 'u2'), k.n(CASE), k.nd(st, (n,), v))
            out += v
        return out


def geom(f):
    """Ends of the element do not coincide."""
    def c(k):
        return t.Ctx().with_sign(t.add(t.mul(f.dx, f.dx), t.mul(f.dy, f.dy)), 1)
    return c


def run(r):
    k = Kit(r, 'fem')
    f = Frame(k)

    def glob(st, ref, *args, f=None, **kw):
        L, T = (f or skew).rotation(st)
        return k.sp(st, 'to_global', k.sp(st, ref, *[L if a == 'L' else a for a in args], **kw), T)

    def rels(st, rel):
        return k.tup(*[k.n(i) for i in rel])

    # ---- beam
    w = (EB, 'EBBeam.stiffness_matrix')
    k.eq('beam.K', w, RULE, lambda st, f=f: k.call(st, f.element(st, EB, 'EBBeam'), 'stiffness_matrix'),
         lambda st, f=f: glob(st, 'beam', f.E, f.A, f.I, 'L', f=f), geom(f))
    f = skew = f.skew()
    rot = [f.x1, f.y1, f.x2, f.y2]
    for rel in RELEASES:
        k.eq('beam.K.released%s' % (rel,), w, RULE,
             lambda st, rel=rel: k.call(st, f.element(st, EB, 'EBBeam', rel), 'stiffness_matrix'),
             lambda st, rel=rel: glob(st, 'beam_released', f.E, f.A, f.I, 'L', rels(st, rel)))
    k.eq('beam.KG', (EB, 'EBBeam.geometric_stiffness_matrix'), RULE,
         lambda st: k.call(st, f.element(st, EB, 'EBBeam', force=f.P), 'geometric_stiffness_matrix', k.n(CASE)),
         lambda st: glob(st, 'geometric', f.P, 'L'))
    w = (EB, 'EBBeam.second_order_stiffness_matrix')
    N = k.s('N')
    for rel in [(), (2,), (5,), (2, 5)]:
        k.eq('beam.KII.compression%s' % (rel,), w, RULE,
             lambda st, rel=rel: k.call(st, f.element(st, EB, 'EBBeam', rel, force=t.neg(N)), 'second_order_stiffness_matrix', k.n(CASE)),
             lambda st, rel=rel: glob(st, 'beam_second', f.E, f.A, f.I, 'L', N, rels(st, rel)))
        k.eq('beam.KII.tension%s' % (rel,), w, RULE,
             lambda st, rel=rel: k.call(st, f.element(st, EB, 'EBBeam', rel, force=N), 'second_order_stiffness_matrix', k.n(CASE)),
             lambda st, rel=rel: glob(st, 'beam_released', f.E, f.A, f.I, 'L', rels(st, rel)))
    # releases set after a first evaluation take effect

    def late(st):
        e = f.element(st, EB, 'EBBeam')
        k.call(st, e, 'stiffness_matrix')
        k.set(st, e, 'releases', k.lst(st, k.n(5)))
        return k.call(st, e, 'stiffness_matrix')
    k.eq('beam.K.late_release', (EB, 'EBBeam.stiffness_matrix'), RULE, late,
         lambda st: glob(st, 'beam_released', f.E, f.A, f.I, 'L', rels(st, (5,))))

    # ---- beam with semi-rigid joints
    w = (SR, 'EBSemiRigidBeam.stiffness_matrix')
    lo, hi = t.num(Fraction(1, 10000)), t.num(10 ** 20)

    def joints(*ks):
        return lambda st: k.lst(st, *ks)

    def between(k):
        c = t.Ctx()
        for x in (f.k1, f.k2):
            c = c.with_sign(t.sub(x, lo), 1).with_sign(t.sub(x, hi), -1)
        return c

    def sr(st, ks):
        return f.element(st, SR, 'EBSemiRigidBeam', extra=[joints(*ks)])

    def gam(st, x):
        L, T = f.rotation(st)
        return k.sp(st, 'joint_gamma', f.E, f.I, L, x)
    big = t.num(10 ** 21)
    for nm, ks in (('both', (f.k1, f.k2)), ('first', (f.k1, big)), ('second', (big, f.k2)), ('rigid', (big, big))):
        k.eq('semirigid.K.%s' % nm, w, RULE, lambda st, ks=ks: k.call(st, sr(st, ks), 'stiffness_matrix'),
             lambda st, ks=ks: glob(st, 'beam_semirigid', f.E, f.A, f.I, 'L', *[t.ZERO if x is big else gam(st, x) for x in ks]), between, assume=True)

    def late_joint(st):
        e = sr(st, (big, big))
        k.call(st, e, 'stiffness_matrix')
        k.it.setitem(st, k.get(st, e, 'rot_stiff'), k.n(1), f.k2)
        return k.call(st, e, 'stiffness_matrix')
    k.eq('semirigid.K.late_joint', w, RULE, late_joint, lambda st: glob(st, 'beam_semirigid', f.E, f.A, f.I, 'L', t.ZERO, gam(st, f.k2)), between, assume=True)
    k.eq('semirigid.KG', (SR, 'EBSemiRigidBeam.geometric_stiffness_matrix'), RULE,
         lambda st: k.call(st, f.element(st, SR, 'EBSemiRigidBeam', force=f.P), 'geometric_stiffness_matrix', k.n(CASE)),
         lambda st: glob(st, 'geometric', f.P, 'L'))

    # ---- rods and springs
    for dim in (2, 3):
        X1, X2 = f.ends(dim)
        k.eq('rod.K.%dD' % dim, (ROD, 'Rod.stiffness_matrix'), RULE,
             lambda st, dim=dim: k.call(st, f.element(st, ROD, 'Rod', dim=dim), 'stiffness_matrix'),
             lambda st, X1=X1, X2=X2: k.sp(st, 'rod', f.E, f.A, k.lst(st, *X1), k.lst(st, *X2)))
        k.eq('spring.K.%dD' % dim, (SPR, 'LinearSpring.stiffness_matrix'), RULE,
             lambda st, dim=dim: k.call(st, f.element(st, SPR, 'LinearSpring', dim=dim), 'stiffness_matrix'),
             lambda st, X1=X1, X2=X2: k.sp(st, 'bar', f.ks, k.lst(st, *X1), k.lst(st, *X2)))
    for mod, nm in ((ROD, 'Rod'), (SPR, 'LinearSpring')):
        k.eq('%s.KG' % nm, (mod, nm + '.geometric_stiffness_matrix'), RULE,
             lambda st, mod=mod, nm=nm: k.call(st, f.element(st, mod, nm, force=f.P), 'geometric_stiffness_matrix', k.n(CASE)),
             lambda st: k.sp(st, 'bar_geometric', f.P, k.lst(st, f.x1, f.y1), k.lst(st, f.x2, f.y2)))

        def nforce(st, mod=mod, nm=nm):
            e = f.element(st, mod, nm)
            f.displace(st, e)
            k.call(st, e, 'internal_forces', k.n(CASE))
            fx = k.it.getitem(st, k.it.getitem(st, k.get(st, e, 'fint'), k.n(CASE)), 'fx')
            return st, k.nd(st, (2,), k.items(st, fx))

        def nwant(st, nm=nm):
            u = [k.s('u%d_%d' % (i, j), '?') for i in (0, 1) for j in (0, 1)]
            return k.sp(st, 'rod_force' if nm == 'Rod' else 'spring_force', *([f.E, f.A] if nm == 'Rod' else [f.ks]), *rot, *u)
        k.eq('%s.force' % nm, (mod, nm + '.internal_forces'), RULE, nforce, nwant)

    # ---- end forces of beams
    def forces(mod, nm, rel=(), load=False, second=None, extra=()):
        def go(st):
            e = f.element(st, mod, nm, rel, extra=extra, force=second)
            f.displace(st, e, order=2 if second is not None else 1)
            if load:
                fl = k.nd(st, (6,), [k.s('f%d' % i, '?') for i in range(6)])
                k.it.setitem(st, k.get(st, e, 'floc'), k.n(CASE), fl)
            k.call(st, e, 'internal_forces' if second is None else 'second_order_internal_forces', k.n(CASE))
            d = k.it.getitem(st, k.get(st, e, 'fint' if second is None else 'fint2'), k.n(CASE))
            return st, k.nd(st, (6,), [x for n in ('fx', 'my', 'fz') for x in k.items(st, k.it.getitem(st, d, n))])
        return go

    def want(ref, *args, load=False, rel=None):
        def go(st):
            L, T = f.rotation(st)
            a = [L if x == 'L' else x for x in args] + ([rels(st, rel)] if rel is not None else [])
            K = k.sp(st, ref, *[x(st) if callable(x) else x for x in a])
            q = k.nd(st, (6,), [k.s('u%d_%d' % (i, j), '?') for i in (0, 1) for j in range(3)])
            fl = k.nd(st, (6,), [k.s('f%d' % i, '?') if load else t.ZERO for i in range(6)])
            return k.sp(st, 'end_forces', K, k.sp(st, 'rotate', T, q), fl)
        return go
    for load in (False, True):
        for rel in ((), (2,), (2, 5)):
            k.eq('beam.forces%s%s' % (rel, '.load' if load else ''), (EB, 'EBBeam.internal_forces'), RULE,
                 forces(EB, 'EBBeam', rel, load), want('beam_released', f.E, f.A, f.I, 'L', load=load, rel=rel))
        k.eq('beam.forces2.compression%s' % ('.load' if load else ''), (EB, 'EBBeam.second_order_internal_forces'), RULE,
             forces(EB, 'EBBeam', (), load, t.neg(N)), want('beam_second', f.E, f.A, f.I, 'L', N, load=load))
        k.eq('semirigid.forces%s' % ('.load' if load else ''), (SR, 'EBSemiRigidBeam.internal_forces'), RULE,
             forces(SR, 'EBSemiRigidBeam', (), load, extra=[joints(big, f.k2)]),
             want('beam_semirigid', f.E, f.A, f.I, 'L', t.ZERO, lambda st: gam(st, f.k2), load=load), between, assume=True)

    # ---- space beam
    sec = [f.E, f.G, f.A, f.I, f.Iz, f.J]
    for nm, d in DIRECTIONS.items():
        g = f.along(d)
        k.eq('beam3d.K.%s' % nm, (EB, 'EBBeam3D.stiffness_matrix'), RULE,
             lambda st, g=g: k.call(st, g.element(st, EB, 'EBBeam3D', dim=3), 'stiffness_matrix'),
             lambda st, g=g: k.sp(st, 'beam3_global', *sec, *g.space))

        def forces3(st, g=g):
            e = g.element(st, EB, 'EBBeam3D', dim=3)
            g.displace(st, e, dim=3)
            k.it.setitem(st, k.get(st, e, 'floc'), k.n(CASE), k.nd(st, (12,), [k.s('f%d' % i, '?') for i in range(12)]))
            k.call(st, e, 'internal_forces', k.n(CASE))
            d = k.it.getitem(st, k.get(st, e, 'fint'), k.n(CASE))
            return st, k.nd(st, (12,), [x for n in ('fx', 'fy', 'fz', 'mx', 'my', 'mz') for x in k.items(st, k.it.getitem(st, d, n))])
        if nm == 'skew':
            def want3(st, g=g):
                q = k.nd(st, (12,), [k.s('u%d_%d' % (i, j), '?') for i in (0, 1) for j in range(6)])
                return k.sp(st, 'beam3_forces', *sec, *g.space, q, k.nd(st, (12,), [k.s('f%d' % i, '?') for i in range(12)]))
            k.eq('beam3d.forces.%s' % nm, (EB, 'EBBeam3D.internal_forces'), RULE, forces3, want3)
