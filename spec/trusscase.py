"""Roof trusses built by the truss generators (scenarios of the C23 rules)."""
import numpy as np
from metku.raami.raami_plane_truss import (BottomChord, SlopedTruss, TopChord, TrussBrace, TubularKGapJoint, TubularKTGapJoint,
                                           TubularYJoint)
from metku.raami.raami_vierendeel import VierendeelTruss
from metku.raami.raami_portal_truss import PortalTruss
from metku.raami.raami_simple_truss import SimpleTruss
from metku.raami.frame_loads import LineLoad, PWLineLoad, PointLoad
from metku.sections.steel.RHS import RHS


def roof(topology, ndiv, L1, L2, dx1, dx2, h1, h2, up, verticals):
    t = SlopedTruss(L1=L1, L2=L2, dx1=dx1, dx2=dx2, h1=h1, h2=h2)
    t.generate_topology(topology, ndiv, first_diagonal_up=up, edge_verticals=verticals)
    return t


def xs(nodes):
    return [n.x for n in nodes]


def ys(nodes):
    return [n.y for n in nodes]


def coordinates(case):
    t = roof(*case)
    return xs(t.top_nodes), ys(t.top_nodes), xs(t.bottom_nodes), ys(t.bottom_nodes)


def lines(case):
    """How far the nodes are from the lines of the roof and of the bottom chord, and how far the middle one is from the ridge."""
    t = roof(*case)
    L1, L2, h1, h2 = case[2], case[3], case[6], case[7]
    mid = (len(t.top_nodes) - 1) // 2
    left = [n.y - (h2 - h1) * n.x / L1 for n in t.top_nodes[:mid + 1]]
    right = [n.y - (h2 - h1) * (L1 + L2 - n.x) / L2 for n in t.top_nodes[mid:]]
    return left, right, t.top_nodes[mid].x, t.top_nodes[0].x, t.top_nodes[-1].x, [n.y for n in t.bottom_nodes]


def order(case):
    """The nodes of the chords run from left to right, and a truss with equal halves is its own mirror image."""
    t = roof(*case)
    span = case[2] + case[3]
    out = []
    for x in (xs(t.top_nodes), xs(t.bottom_nodes)):
        out.append([b > a for a, b in zip(x, x[1:])])
        out.append([a + b - span for a, b in zip(x, x[::-1])])
    return out


def index(nodes, node):
    for i, n in enumerate(nodes):
        if n is node:
            return i
    return -1


def ends(t, mem):
    """Indices (top, bottom) of the end nodes of a brace."""
    a, b = mem.nodes
    if index(t.top_nodes, a) >= 0:
        return index(t.top_nodes, a), index(t.bottom_nodes, b)
    return index(t.top_nodes, b), index(t.bottom_nodes, a)


def members(case):
    """Connectivity: pairs of node numbers of the chords and the (sorted) braces, and the numbers of nodes and members."""
    t = roof(*case)
    return connectivity(t)


def connectivity(t):
    tops = [[index(t.top_nodes, n) for n in m.nodes] for m in t.top_chord]
    bots = [[index(t.bottom_nodes, n) for n in m.nodes] for m in t.bottom_chord]
    braces = sorted([ends(t, m) for m in t.braces.values()])
    return tops, bots, braces, len(t.nodes), len(t.members), len(t.member_groups['top_chord'].members), len(
        t.member_groups['bottom_chord'].members)


def profiles(case, a, b, c):
    """Each member has a section of its own of the given profile: changing one leaves the others."""
    t = SlopedTruss(L1=case[2], L2=case[3], dx1=case[4], dx2=case[5], h1=case[6], h2=case[7])
    given = [RHS(200, 200, 8), RHS(180, 180, 8), RHS(120, 120, 5)]
    t.generate_topology(case[0], case[1], given[0], given[1], given[2], first_diagonal_up=case[8], edge_verticals=case[9], nel_chord=3,
                        nel_brace=2)
    first = [m.cross_section.H for m in t.top_chord], [m.cross_section.H for m in t.bottom_chord], [
        m.cross_section.H for m in t.braces.values()]
    elements = [m.num_elements for m in t.top_chord], [m.num_elements for m in t.bottom_chord], [m.num_elements for m in t.braces.values()]
    t.top_chord[1].cross_section.A = a
    t.bottom_chord[0].cross_section.A = b
    list(t.braces.values())[2].cross_section.A = c
    one = [m.cross_section.A for m in t.top_chord].count(a), [m.cross_section.A for m in t.bottom_chord].count(b), [
        m.cross_section.A for m in t.braces.values()].count(c)
    sections = [m.cross_section for m in t.members.values()]
    common = [i for i, p in enumerate(sections) if [1 for s in sections[:i] if s is p]]
    return first, elements, one, common


def shape(L1, L2, h1, h2, slope):
    """Heights and slope from two of the three dimensions."""
    if slope is None:
        t = SlopedTruss(L1=L1, L2=L2, h1=h1, h2=h2)
    elif h2 is None:
        t = SlopedTruss(L1=L1, L2=L2, h1=h1, slope=slope)
    else:
        t = SlopedTruss(L1=L1, L2=L2, h2=h2, slope=slope)
    return t.Hleft, t.Hmid, t.Hright, t.slope, t.span, t.height_of_slope_left()


def supports(case):
    t = roof(*case)
    t.generate_supports()
    return [held(t, s) for s in t.supports.values()]


def held(t, s):
    return index(t.top_nodes, s.node), index(t.bottom_nodes, s.node), sorted(s.dofs)


def described(t, load):
    m = load.member
    a, b = list(load.values)
    split = None
    if isinstance(load, PWLineLoad):
        # a step at an end of the member is no step
        if load.xdiv <= 0:
            a = b
        elif load.xdiv >= 1:
            b = a
        else:
            split = load.xdiv
    return (index(t.top_chord, m), index(t.bottom_chord, m), [a, b], split, load.direction, load.coord_sys, load.load_id, load.f,
            load.ltype)


def place(d):
    return 1000 * d[0] + d[1]


def uniform(case, q, chord, load_id, ltype):
    t = roof(*case)
    t.generate_uniform_load(q, chord, load_id, ltype)
    return [described(t, load) for load in t.loads.values()], [len(lc.loads) for lc in t.load_cases.values()], list(t.load_cases.keys()), [
        len(m.loads) for m in t.members.values()]


def zones(case, q, x, load_id, ltype):
    t = roof(*case)
    t.generate_piecewise_uniform_load(q, x, load_id, ltype)
    return sorted([described(t, load) for load in t.loads.values()], key=place), [len(lc.loads) for lc in t.load_cases.values()], [
        len(m.loads) for m in t.top_chord], [len(m.loads) for m in t.bottom_chord]


def moved(case, dy):
    t = roof(*case)
    t.bottom_chord_dy(dy)
    return ys(t.top_nodes), ys(t.bottom_nodes)


def joints(case):
    """Type of the joint, its chord members and braces at every node."""
    t = roof(*case)
    t.generate_joints()
    return joint_list(t)


def joint_kind(j):
    if isinstance(j, TubularKTGapJoint):
        return 'KT'
    if isinstance(j, TubularKGapJoint):
        return 'K'
    if isinstance(j, TubularYJoint):
        return 'Y'
    return '?'


def joint_list(t):
    out = []
    for j in t.joints.values():
        out.append((index(t.top_nodes, j.node), index(t.bottom_nodes, j.node), joint_kind(j), j.chord, sorted(
            [max(index(t.top_chord, m), index(t.bottom_chord, m)) for m in j.chords]), sorted([ends(t, m) for m in j.braces])))
    at = []
    for m in t.braces.values():
        top, bottom = ends(t, m)
        at.append((index(t.top_nodes, m.top_joint.node) == top, index(t.bottom_nodes, m.bottom_joint.node) == bottom))
    chords = [[sorted([index(t.top_nodes, j.node) for j in m.joints]) for m in t.top_chord],
              [sorted([index(t.bottom_nodes, j.node) for j in m.joints]) for m in t.bottom_chord]]
    ridge = None if t.ridge_joint is None else index(t.top_nodes, t.ridge_joint.node)
    return sorted(out), at, chords, ridge


def pairs(case):
    """Nodes, members and joints and their mirror images."""
    t = roof(*case)
    t.generate_joints()
    t.symmetry()
    top = [-1 if n.symmetry_node is None else index(t.top_nodes, n.symmetry_node) for n in t.top_nodes]
    bottom = [-1 if n.symmetry_node is None else index(t.bottom_nodes, n.symmetry_node) for n in t.bottom_nodes]
    tc = [-1 if m.symmetry_pair is None else index(t.top_chord, m.symmetry_pair) for m in t.top_chord]
    bc = [-1 if m.symmetry_pair is None else index(t.bottom_chord, m.symmetry_pair) for m in t.bottom_chord]
    br = sorted([(ends(t, m), (-1, -1) if m.symmetry_pair is None else ends(t, m.symmetry_pair)) for m in t.braces.values()])
    js = sorted([(index(t.top_nodes, j.node), index(t.bottom_nodes, j.node), -1 if j.sym_joint is None else index(
        t.top_nodes, j.sym_joint.node), -1 if j.sym_joint is None else index(t.bottom_nodes, j.sym_joint.node)) for j in t.joints.values()])
    return top, bottom, tc, bc, br, js


def vierendeel(x0, y0, span, height, panels):
    t = VierendeelTruss(origin=(x0, y0), span=span, height=height, panels=panels)
    t.generate_topology()
    return t


def frame_grid(x0, y0, span, height, panels):
    t = vierendeel(x0, y0, span, height, panels)
    t.generate_supports()
    return xs(t.top_nodes), ys(t.top_nodes), xs(t.bottom_nodes), ys(t.bottom_nodes), connectivity(t), [held(t, s) for s in
                                                                                                   t.supports.values()], [
        list(m.hinges) for m in t.braces.values()]


def frame_joints(x0, y0, span, height, panels):
    t = vierendeel(x0, y0, span, height, panels)
    t.generate_joints()
    return sorted([(index(t.top_nodes, j.node), index(t.bottom_nodes, j.node), joint_kind(j), sorted([ends(t, m) for m in j.braces]))
                   for j in t.joints.values()])


def frame_loads(x0, y0, span, height, panels, q, p, chord, load_id):
    t = vierendeel(x0, y0, span, height, panels)
    t.generate_uniform_load(q, chord, load_id, 'snow')
    lines_ = [described(t, load) for load in t.loads.values()]
    t.generate_chord_point_load(p, chord, load_id, 'live')
    points = sorted([(index(t.top_nodes, load.node), index(t.bottom_nodes, load.node), list(load.v)[:2], load.load_id, load.f, load.ltype)
                     for load in t.loads.values() if isinstance(load, PointLoad)])
    return lines_, points, [len(lc.loads) for lc in t.load_cases.values()]


def bars(nodes, ties, kind):
    profiles_ = [RHS(100 + 10 * i, 100 + 10 * i, 5) for i in range(len(ties))]
    t = SimpleTruss(nodes, ties, profiles_, truss_type=kind)
    return [list(n.coords) for n in t.nodes], [[index(t.nodes, n) for n in m.nodes] for m in t.members.values()], [
        m.cross_section.H for m in t.members.values()], [m.mtype for m in t.members.values()]
