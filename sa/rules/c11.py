"""C11: loads of the frame analysis."""
from ..kit import Kit
from .. import terms as t
from .c10 import Frame, DIRECTIONS, FF, EB, SR, CASE, RELEASES

EXPLAIN = ('Value graphs of the nodal loads and stored local loads of point and line loads on every beam element, for symbolic intensities '
           'at both ends, load factor, end positions, releases, joint stiffnesses and axial force, compared with the consistent nodal '
           'loads (closed form) of a linearly varying load.')
RULE = 'nodal loads = consistent loads'


def run(r):
    k = Kit(r, 'fem')
    f = Frame(k)
    g = f.skew()
    lam, ga, gb = k.s('lam'), k.s('qa', '?'), k.s('qb', '?')

    def load(st, e, d, coords, q1=f.q1, q2=f.q2, fac=lam, sid=CASE):
        l = k.new(st, FF, 'LineLoad', k.n(sid), e, k.lst(st, k.n(0), k.n(1)), k.lst(st, q1, q2), d, coords=coords)
        k.set(st, l, 'f', fac)
        return l

    def freedoms(st, e, n=3):
        for i, nd in enumerate(k.items(st, k.get(st, e, 'nodes'))):
            k.set(st, nd, 'dofs', k.nd(st, (n,), [k.n(n * i + j) for j in range(n)]))

    def nodal(mod, nm, d, coords, rel=(), fr=g, order=1, force=None, uniform=False, extra=(), dim=2, local=False, prep=True):
        def go(st):
            e = fr.element(st, mod, nm, rel, dim=dim, extra=extra, force=force)
            freedoms(st, e, 3 * dim - 3)
            if prep:
                k.call(st, e, 'stiffness_matrix') if order == 1 else k.call(st, e, 'second_order_stiffness_matrix', k.n(CASE))
            l = load(st, e, d, coords, q2=f.q1 if uniform else f.q2)
            v = k.call(st, l, 'load_and_dofs', k.n(order))
            if local:
                return st, k.it.getitem(st, k.get(st, e, 'floc'), k.n(CASE))
            return st, k.it.getitem(st, v, t.ZERO)
        return go

    a1, a2 = t.mul(lam, f.q1), t.mul(lam, f.q2)

    def want(d, coords, rel=(), fr=g, local=False):
        def go(st):
            v = k.sp(st, 'line_load', d, coords, a1, a2, fr.x1, fr.y1, fr.x2, fr.y2, k.tup(*[k.n(i) for i in rel]))
            fl, T = k.it.getitem(st, v, t.ZERO), k.it.getitem(st, v, t.UNIT)
            return fl if local else k.sp(st, 'back', T, fl)
        return go

    w = (EB, 'EBBeam.equivalent_nodal_loads')
    for d in 'xy':
        for coords in ('local', 'global'):
            nm = '%s.%s' % (d, coords)
            k.eq('beam.%s' % nm, w, RULE, nodal(EB, 'EBBeam', d, coords), want(d, coords))
            k.eq('beam.%s.local' % nm, w, RULE, nodal(EB, 'EBBeam', d, coords, local=True), want(d, coords, local=True))
            for rel in RELEASES:
                k.eq('beam.%s.released%s' % (nm, rel), w, RULE, nodal(EB, 'EBBeam', d, coords, rel), want(d, coords, rel))
            # second order, tension: as first order
            N = k.s('N')
            k.eq('beam.%s.second.tension' % nm, w, RULE, nodal(EB, 'EBBeam', d, coords, order=2, force=N) if d == 'y' or coords == 'global' else
                 nodal(EB, 'EBBeam', d, coords, order=2, force=N), want(d, coords))
            for rel in ((), (2,), (5,), (2, 5)):
                def want2(st, d=d, coords=coords, rel=rel):
                    L, T = g.rotation(st)
                    return k.sp(st, 'second_load', d, coords, a1, L, T, N, f.E, f.I, k.tup(*[k.n(i) for i in rel]))
                k.eq('beam.%s.second.compression%s' % (nm, rel), w, RULE,
                     nodal(EB, 'EBBeam', d, coords, rel, order=2, force=t.neg(N), uniform=True), want2)
    # semi-rigid beams
    ws = (SR, 'EBSemiRigidBeam.equivalent_nodal_loads')
    big = t.num(10 ** 21)

    def between(k):
        c = t.Ctx()
        for x in (f.k1, f.k2):
            c = c.with_sign(t.sub(x, t.num(1)), 1).with_sign(t.sub(x, t.num(10 ** 20)), -1)
        return c
    for jn, ks in (('both', (f.k1, f.k2)), ('first', (f.k1, big)), ('second', (big, f.k2)), ('rigid', (big, big))):
        for d, coords in (('y', 'local'), ('x', 'local'), ('y', 'global'), ('x', 'global')):
            if jn not in ('second', 'both') and (d, coords) != ('y', 'global'):
                continue

            def wants(st, ks=ks, d=d, coords=coords):
                L, T = g.rotation(st)
                gm = [t.ZERO if x is big else k.sp(st, 'joint_gamma', f.E, f.I, L, x) for x in ks]
                return k.sp(st, 'semirigid_load', d, coords, a1, a2, L, T, *gm)
            k.eq('semirigid.%s.%s.%s' % (jn, d, coords), ws, RULE,
                 nodal(SR, 'EBSemiRigidBeam', d, coords, extra=[lambda st, ks=ks: k.lst(st, *ks)]), wants, between, assume=True)
    # space beams
    w3 = (EB, 'EBBeam3D.equivalent_nodal_loads')
    for nm in ('skew', 'up', 'Y'):
        h = f.along(DIRECTIONS[nm])
        for d in 'xyz':
            for coords in ('local', 'global'):
                if nm != 'skew' and coords == 'local':
                    continue
                k.eq('beam3d.%s.%s.%s' % (nm, d, coords), w3, RULE, nodal(EB, 'EBBeam3D', d, coords, fr=h, dim=3),
                     lambda st, h=h, d=d, coords=coords: k.sp(st, 'line_load3', d, coords, a1, a2, *h.space))

    # several loads on one element; other load cases; inactive dofs; point loads
    def frame(st, release=False):
        fem = k.new(st, FF, 'FrameFEM')
        n1 = k.call(st, fem, 'add_node', g.x1, g.y1)
        n2 = k.call(st, fem, 'add_node', g.x2, g.y2)
        e = k.new(st, EB, 'EBBeam', n1, n2, g.section(st), g.material(st))
        k.call(st, fem, 'add_element', e)
        k.call(st, fem, 'add_support', k.n(1), k.n(0), k.lst(st, k.n(0), k.n(1), k.n(2)), k.n(0))
        k.call(st, fem, 'add_loadcase', k.n(1), k.n(CASE))
        k.call(st, fem, 'add_loadcase', k.n(1), k.n(CASE + 1))
        k.call(st, fem, 'nodal_dofs')
        return fem, n1, n2, e

    pf = [k.s('p%d' % i, '?') for i in range(3)]

    def several(st):
        fem, n1, n2, e = frame(st)
        k.call(st, fem, 'add_load', load(st, e, 'y', 'global'))
        k.call(st, fem, 'add_load', load(st, e, 'x', 'local', q1=ga, q2=gb, fac=t.UNIT))
        k.call(st, fem, 'add_load', load(st, e, 'y', 'local', q1=gb, q2=ga, fac=t.num(3), sid=CASE + 1))
        p = k.new(st, FF, 'PointLoad', k.n(CASE), n2, k.lst(st, *pf), lam)
        k.call(st, fem, 'add_load', p)
        k.call(st, fem, 'global_load_vector', k.n(CASE + 1))
        return fem, e, k.call(st, fem, 'global_load_vector', k.n(CASE))

    def both(st, local):
        L, T = g.rotation(st)
        return k.sp(st, 'two_loads', a1, a2, ga, gb, L, T, local, *[t.mul(lam, p) for p in pf])
    k.eq('vector.sum', (FF, 'FrameFEM.global_load_vector'), RULE, lambda st: (st, several(st)[2]), lambda st: both(st, False))

    def stored(again):
        def go(st):
            fem, e, v = several(st)
            if again:
                k.call(st, fem, 'global_load_vector', k.n(CASE))
            return st, k.it.getitem(st, k.get(st, e, 'floc'), k.n(CASE))
        return go
    k.eq('vector.local', (FF, 'FrameFEM.global_load_vector'), RULE, stored(False), lambda st: both(st, True))
    k.eq('vector.local.again', (FF, 'FrameFEM.global_load_vector'), RULE, stored(True), lambda st: both(st, True))

    def removed(st):
        fem, e, v = several(st)
        k.set(st, fem, 'loads', k.lst(st))
        k.call(st, fem, 'global_load_vector', k.n(CASE))
        f.displace(st, e)
        k.call(st, e, 'internal_forces', k.n(CASE))
        d = k.it.getitem(st, k.get(st, e, 'fint'), k.n(CASE))
        return st, k.nd(st, (6,), [x for n in ('fx', 'my', 'fz') for x in k.items(st, k.it.getitem(st, d, n))])

    def unloaded(st):
        L, T = g.rotation(st)
        q = k.nd(st, (6,), [k.s('u%d_%d' % (i, j), '?') for i in (0, 1) for j in range(3)])
        return k.sp(st, 'end_forces', k.sp(st, 'beam', f.E, f.A, f.I, L), k.sp(st, 'rotate', T, q), k.nd(st, (6,), [t.ZERO] * 6))
    k.eq('vector.removed', (FF, 'FrameFEM.global_load_vector'), RULE, removed, unloaded)

    def point(dofs):
        def go(st):
            n = k.new(st, FF, 'FEMNode', k.n(0), g.x1, g.y1)
            k.set(st, n, 'dofs', k.nd(st, (3,), [k.n(x) for x in dofs]))
            l = k.new(st, FF, 'PointLoad', k.n(1), n, k.lst(st, *pf), lam)
            v = k.call(st, l, 'load_and_dofs')
            return st, k.tup(k.it.getitem(st, v, t.ZERO), k.it.getitem(st, v, t.UNIT))

        def w(st):
            on = [i for i in range(3) if dofs[i] >= 0]
            return k.tup(k.nd(st, (len(on),), [t.mul(lam, pf[i]) for i in on]), k.nd(st, (len(on),), [k.n(dofs[i]) for i in on]))
        k.eq('point.%s' % (dofs,), (FF, 'PointLoad.load_and_dofs'), RULE, go, w)
    for d in ((3, 4, 5), (0, 1, -1), (-1, 0, 1), (-1, -1, 2), (2, -1, -1)):
        point(d)
