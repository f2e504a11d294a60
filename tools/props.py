VG = 'abstract interpretation of the source to value graphs (symbolic normal forms), compared with a reference'
VGN = ('Equality of algebraic normal forms of code and reference on every branch, over the reals, for all symbolic '
       'inputs. Trusts the Python/numpy semantics model in sa/, the reference formulas in spec/, and exact arithmetic; '
       'values the analysis cannot resolve are counted as undecided and never reported.')
SEC = 'metku/sections/steel/'
PROPS = [
 dict(id='C01', title='Geometric properties of steel sections follow from their dimensions',
      statement='For every admissible set of dimensions, a rectangular or circular hollow section, a rolled-type I section '
      'and a welded I section report the cross-section area, surface perimeter, second moments of area, elastic and plastic '
      'section moduli, shear areas, torsion and warping constants and plate dimensions that the standard geometric '
      'definitions give for these dimensions. Properties are reported per axis (major, minor) for every section type.',
      quant='all real dimensions (height, widths, wall thicknesses, radii, weld throats) of every parametric steel section',
      why='The tests compare a few catalogue sections with table values; the formulas must hold for every dimension set, in '
      'particular unsymmetric flanges and both axes.',
      files=[SEC + f for f in ('RHS.py', 'CHS.py', 'ISection.py', 'wi.py', 'steel_section.py')],
      mech=[('geometry formulas', SEC + 'RHS.py, CHS.py, ISection.py, wi.py'), ('axis properties', SEC + 'steel_section.py')],
      tech=VG, note=VGN),
 dict(id='C02', title='Resizing a section or bolt equals building it with the new dimensions',
      statement='After any dimension of a rectangular hollow section, parametric circular hollow section, parametric I section, '
      'welded I section or solid timber section is changed, every derived geometric property equals that of a freshly built '
      'section with the new dimensions. The same holds for a bolt whose diameter is changed.',
      over=['inputs', 'histories'],
      quant='every dimension setter of every parametric section, for all old and new values',
      why='Tests set a dimension once or twice for single values; the optimisers resize the same section object thousands of times.',
      files=[SEC + f for f in ('RHS.py', 'CHS.py', 'ISection.py', 'wi.py')] + ['metku/sections/timber/timber_section.py',
             'metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py'],
      mech=[('dimension setters', SEC + '*.py'), ('property updates', SEC + 'RHS.py, ISection.py, CHS.py')],
      tech=VG + ' of setter histories', note=VGN),
 dict(id='C03', title='Cross-section resistances and utilisation follow EN 1993-1-1, 6.2',
      statement='For all areas, moduli, strengths, partial factors and action effects, tension, net section, compression, bending '
      '(by cross-section class), shear and combined bending-and-axial-force resistances of hollow, I and welded I sections equal '
      'the expressions of EN 1993-1-1, 6.2. The utilisation ratios reported for a section are the absolute action effects divided by those '
      'resistances, with the combined check linear for class 3 and by the reduced plastic moment for classes 1 and 2.',
      quant='all section properties, strengths, partial factors, classes, axes and signed action effects',
      why='Tests evaluate a handful of sections; branches over class, sign, axis and the caps of the interaction rule are not all exercised.',
      files=[SEC + f for f in ('RHS.py', 'CHS.py', 'ISection.py', 'wi.py', 'steel_section.py')] + ['metku/eurocodes/en1993/en1993_1_1.py'],
      mech=[('resistance functions', 'metku/eurocodes/en1993/en1993_1_1.py'), ('section_resistance and resistances', SEC + 'steel_section.py'),
            ('M-N interaction', SEC + 'RHS.py, CHS.py, ISection.py, wi.py')],
      tech=VG, note=VGN),
 dict(id='C04', title='Cross-section classes follow Table 5.2 of EN 1993-1-1',
      statement='For every slenderness, yield strength of at least 235 MPa, position of the plastic neutral axis and stress ratio, parts of hollow, '
      'rolled I and welded I sections in compression, bending or both are given the class of Table 5.2, evaluated with the flat width of the '
      'part. The class of a section is the worst class of its parts for the kind of action (tension, compression, bending, both) on it.',
      quant='all dimensions, strengths, axial forces and moments; every branch of the classification',
      why='Tests classify a few sections; limits and the choice of the relevant part are piecewise and each threshold must be right.',
      files=[SEC + f for f in ('RHS.py', 'CHS.py', 'ISection.py', 'wi.py', 'steel_section.py')] + ['metku/eurocodes/en1993/en1993_1_1.py'],
      mech=[('classification functions', 'metku/eurocodes/en1993/en1993_1_1.py'), ('section_class and part classes', SEC + '*.py')],
      tech=VG, note=VGN),
 dict(id='C05', title='Plate buckling follows EN 1993-1-5',
      statement='For every slenderness, stress ratio, plate dimension and strength, reduction factors, buckling factors, effective widths, shear '
      'buckling factors and resistances and the resistance to transverse forces equal the expressions of EN 1993-1-5. A welded I section uses them with its own '
      'dimensions for the effective flange and web, the effective area under uniform compression, and its shear buckling and transverse force resistance.',
      quant='all slendernesses, stress ratios above -3, dimensions, strengths, stiffener spacings, load types and action effects',
      why='Tests check one welded section; the rules are piecewise in slenderness, stress ratio, load type and end post.',
      files=['metku/eurocodes/en1993/en1993_1_5.py', SEC + 'wi.py'],
      mech=[('plate buckling functions', 'metku/eurocodes/en1993/en1993_1_5.py'), ('effective section, shear buckling, patch load', SEC + 'wi.py')],
      tech=VG, note=VGN),
 dict(id='C06', title='Member buckling follows EN 1993-1-1, 6.3.1 and 6.3.2',
      statement='For every area, second moment of area, strength, length, buckling length factor and imperfection factor, the critical forces and moments, '
      'slendernesses, reduction factors and flexural, torsional and lateral-torsional buckling resistances of a steel member equal the expressions of EN 1993-1-1, and the '
      'reported buckling utilisation is the largest compression force (moment) over that resistance. Rolled I, welded I and hollow sections take the imperfection '
      'factors of Tables 6.2, 6.4 and 6.5 that belong to their dimensions and steel grade.',
      quant='all section properties, lengths, buckling length factors, strengths, imperfection factors and member forces; all dimensions for the curve selection',
      why='Tests check a few members; reduction factors are piecewise and the curve tables branch on h/b, flange thickness and grade.',
      files=['metku/structures/steel/steel_member.py', 'metku/eurocodes/en1993/en1993_1_1.py'] + [SEC + f for f in ('ISection.py', 'wi.py', 'RHS.py', 'CHS.py')],
      mech=[('member buckling', 'metku/structures/steel/steel_member.py'), ('buckling curves', SEC + 'ISection.py, wi.py, RHS.py, CHS.py')],
      tech=VG, note=VGN),
 dict(id='C07', title='Beam-column checks follow EN 1993-1-1, 6.3.3 and Annex B',
      statement='For every slenderness, utilisation, cross-section class and moment distribution, the interaction factors and equivalent uniform moment factors equal '
      'Tables B.1, B.2 and B.3 (with the default partial factor gamma_M1 = 1). The beam-column utilisation of a steel member bent about its major axis is the value of Eqs. (6.61) and (6.62) for the largest compression force '
      'and the largest moment, with the lateral-torsional buckling resistance when the member is susceptible to it.',
      quant='all slendernesses, utilisations, classes, end and span moments of either sign, section properties, lengths and strengths',
      why='Tests evaluate few members; Table B.3 has a dozen branches of sign and size of the moments.',
      files=['metku/structures/steel/steel_member.py', 'metku/eurocodes/en1993/en1993_1_1.py'],
      mech=[('beam-column check', 'metku/structures/steel/steel_member.py'), ('Annex B factors', 'metku/eurocodes/en1993/en1993_1_1.py')],
      tech=VG, note=VGN),
]
FF = 'metku/framefem/'
EL = [FF + 'framefem.py'] + [FF + 'elements/' + f for f in ('ebbeam.py', 'eb_semi_rigid_beam.py', 'rod.py', 'springs.py')]
PROPS += [
 dict(id='C10', title='Finite elements have exact beam, bar and spring stiffness and end forces',
      statement='For every pair of end nodes, section, material, end release, joint stiffness, axial force and nodal displacement, the plane beam, semi-rigid beam, bar, axial spring and '
      'space beam elements give the global stiffness matrix of exact beam (bar, spring) theory with released end moments condensed out, and the plane elements its geometric and second-order stiffness. '
      'The reported element end forces are those matrices times the end displacements in local axes, less the fixed-end forces of the element loads, and setting a release or joint stiffness after an analysis takes effect in the next one.',
      over=['inputs', 'histories'],
      quant='end coordinates in general and axis-parallel directions, all section and material values, all release patterns, joint stiffnesses, axial forces of either sign and displacements',
      why='The tests analyse single frames with numbers; a wrong coefficient may only matter for particular directions, releases or combinations of stiffnesses.',
      files=EL, mech=[('element matrices', FF + 'elements/*.py'), ('end forces', FF + 'elements/*.py'), ('transformation', FF + 'framefem.py')],
      tech=VG, note=VGN),
 dict(id='C11', title='Member loads become their work-equivalent nodal loads',
      statement='For every linearly varying line load in any direction, given in local or global axes, the nodal loads of beam, semi-rigid beam and space beam elements are the fixed-end reactions of exact beam theory, taking '
      'end releases, joint stiffnesses and (second order) the axial force into account, scaled once by the load factor. The load vector of a load case is the sum of all its point loads and line loads and '
      'of nothing else, however many loads act on the same node or element and in whatever order they are added, removed and evaluated.',
      over=['inputs', 'histories'],
      quant='load intensities at both ends, directions, coordinate systems, load factors, element geometry, releases, joint stiffnesses, axial forces; sequences of adding, evaluating and removing loads',
      why='Tests apply one uniform load; superposition, trapezoidal loads, factors and releases are not sampled together.',
      files=EL[:3], mech=[('equivalent nodal loads', FF + 'elements/ebbeam.py, eb_semi_rigid_beam.py'), ('loads and load vector', FF + 'framefem.py')],
      tech=VG, note=VGN),
 dict(id='C12', title='Frame analysis assembles and solves the equations of the whole structure',
      statement='The global (geometric) stiffness matrix is the sum of the element matrices at the degrees of freedom of their nodes, where every active degree of freedom has its own number, and the eigenvalue problem of '
      'linear buckling is that of the free degrees of freedom, whose mode shapes are given to their nodes. Linear and second-order analysis give every node the displacements and every element the end forces '
      'that satisfy equilibrium with the supports enforced, for either way of imposing supports, one or several load cases and repeated analysis.',
      over=['inputs', 'histories'],
      quant='symbolic dimensions, sections, materials, loads and load factors of frames of fixed topology (portal with mixed elements, skew cantilever, propped beam, two spans, truss, star); orders of adding nodes, loads, supports and analyses',
      why='Tests compare few numbers of few models; which structure, support method, load case or history is analysed may change which equation is wrong.',
      files=EL, mech=[('assembly, supports, solution', FF + 'framefem.py'), ('second order and buckling', FF + 'framefem.py')],
      tech=VG, note=VGN + ' Topologies are fixed, all dimensions and loads are symbols; the eigenvalue solver itself is trusted.'),
]
PROPS += [
 dict(id='C13', title='Steel in fire follows EN 1993-1-2',
      statement='For every temperature from 20 to 1200 degrees, strain, strength and modulus of elasticity, the reduction factors, temperature dependent strengths, stiffness, stress-strain relationships and thermal '
      'properties of carbon steel, stainless steel 1.4301 and bolts are those of EN 1993-1-2. For every section factor, shadow effect and fire exposure, the fire curves, net heat flux, section factors and the step by '
      'step temperature history of unprotected steel are those of EN 1993-1-2, 4.2.5 and EN 1991-1-2, and the temperature methods of the steel material give the same values.',
      quant='all temperatures in [20, 1200], strains, strengths, moduli, times, gas and steel temperatures, section factors; one and two time steps',
      why='The tests sample few temperatures; tables are interpolated piecewise and thresholds of stress-strain curves and thermal properties are not all reached.',
      files=['metku/eurocodes/en1993/en1993_1_2.py', 'metku/materials/steel_data.py', SEC + 'ISection.py', SEC + 'steel_section.py'],
      mech=[('fire rules', 'metku/eurocodes/en1993/en1993_1_2.py'), ('material at temperature', 'metku/materials/steel_data.py'), ('section factors', SEC + '*.py')],
      tech=VG, note=VGN + ' Stress-strain curves and the material methods are compared for all strains and strengths at 23 and 9 temperatures.'),
]
PROPS += [
 dict(id='C14', title='Wind actions follow EN 1991-1-4',
      statement='For every wind velocity, height above ground and terrain category the terrain roughness, turbulence intensity, mean velocity and peak velocity pressure are those of EN 1991-1-4, 4.2-4.5 with the Finnish '
      'national choices. For every building with walls larger than 10 m2 and either wind direction the zones A-E of the walls and F-I of a flat roof have the extent, pressure coefficient and pressure of EN 1991-1-4, 7.2, '
      'and the pressure coefficients of a monopitch roof of 5 to 75 degrees are the linearly interpolated values of its Table 7.3.',
      quant='all velocities, heights, terrain categories, building dimensions, peak pressures and roof angles',
      why='No test computes wind actions; zones and coefficients change form at thresholds of e/d and h/d and in every interval of roof angle.',
      files=['metku/eurocodes/en1991/en1991_1_4.py'], mech=[('wind velocity and pressure', 'metku/eurocodes/en1991/en1991_1_4.py'), ('zones and coefficients', 'metku/eurocodes/en1991/en1991_1_4.py')],
      tech=VG, note=VGN + ' The monopitch pressure function (a stub without coefficients), parapets and walls of at most 10 m2 are outside the property.'),
 dict(id='C15', title='Load combinations are those of EN 1990',
      statement='For every set of permanent, imposed, snow and wind loads, frame spacing, structure class and consequence class, the combined loads in each direction and at each place are, in every limit state, those of the '
      'combination of EN 1990 (6.10a,b, 6.11, 6.14-6.16 with the Finnish annex) that gives the largest sum, with every other variable load accompanying by its own combination factor. Imposed loads '
      'are reduced for the loaded area only where EN 1991-1-1 allows it, and the loads given to a combiner are left unchanged and count once however many combiners get them.',
      over=['inputs'],
      quant='all positive load values, spacings and reduction lengths; 7 compositions of up to four loads, structure classes A-E, consequence classes 1-3, all limit states, whichever variable load governs',
      why='The tests combine a few numeric sets; which variable load leads decides every factor and depends on all the values.',
      files=['metku/eurocodes/en1991/en1991.py'], mech=[('combiners', 'metku/eurocodes/en1991/en1991.py'), ('load types', 'metku/eurocodes/en1991/en1991.py')],
      tech=VG, note=VGN + ' Compositions are fixed and loads positive (an ultimate limit state with suction only is outside); values are compared before rounding to 0.01.'),
]
RM = 'metku/raami/'
PROPS += [
 dict(id='C16', title='A frame is analysed as described, with every load once and its results back',
      statement='For every frame of members, supports, loads, load cases and combinations, the finite element model has exactly the nodes, elements, sections, materials, end releases and supports of the frame and, '
      'in every load case, each of its loads once with its own factor, direction and coordinate system, and a load combination is the sum of its cases with the factors of EN 1990, however often the model is regenerated, recombined or analysed. '
      'Later changes of the frame (moved nodes, other sections or materials of members, groups and symmetry pairs, self-weight added or removed) reach the model, and the forces, '
      'displacements, extremes, design values and utilisation kept by each member are those of the finite element solution of the same load case, whether cases are analysed one by one or together.',
      over=['inputs', 'histories'],
      quant='symbolic coordinates, sections, load values and factors; fixed member layouts (beam, column, rafters of either direction, one to four elements, all hinge patterns); sequences of adding, removing, moving, recombining and analysing',
      why='The tests check few numbers of one frame; which load, member, direction, name or order of calls loses or doubles something is not sampled.',
      files=[RM + f for f in ('raami.py', 'frame_member.py', 'frame_loads.py', 'frame_node.py', 'frame_supports.py')],
      mech=[('model generation', RM + 'raami.py'), ('elements, forces, design of members', RM + 'frame_member.py'), ('loads and combinations', RM + 'frame_loads.py')],
      tech=VG, note=VGN + ' Plane frames; member layouts are fixed, all numbers are symbols.'),
]
J8 = 'metku/eurocodes/en1993/en1993_1_8/'
PROPS += [
 dict(id='C17', title='Bolts, welds and bolted end-plate joints follow EN 1993-1-8',
      statement='For every bolt, weld, plate and steel section the resistances and stiffness coefficients of the basic components, and for every position of a bolt row, alone or in a group, the effective lengths and failure modes of '
      'the equivalent T-stubs are those of EN 1993-1-8, 3.6, 4.5, 6.2.4, 6.2.6 and 6.3.2. The moment resistance of a bolted end-plate joint is the sum of the forces of its tension rows times their lever arms, where no row, group, nor '
      'all rows together carry more than their own, the group\'s or the compression side\'s resistance, and its initial stiffness is that of 6.3. A bolt, plate or row changed after construction gives the values of one constructed so.',
      over=['inputs', 'histories'],
      quant='symbolic dimensions, strengths, distances and partial factors; every bolt size and class of the tables; all row positions of Tables 6.4-6.6; row layouts of one to four rows with and without groups, shear rows and stiffeners',
      why='The tests of end-plate joints compare a few published examples; which row, group, position, failure mode or component governs is decided by the values.',
      files=[J8 + 'en1993_1_8.py', J8 + 'component_method.py', 'metku/structures/steel/end_plate_joint.py', 'metku/structures/steel/plates.py'],
      mech=[('bolts, T-stubs, rows and groups', J8 + 'en1993_1_8.py'), ('basic components', J8 + 'component_method.py'), ('joint', 'metku/structures/steel/end_plate_joint.py')],
      tech=VG, note=VGN + ' Row layouts are fixed. Shear resistance of the joint, its cost and rotational stiffness at a given moment are outside the property.'),
]
PROPS += [
 dict(id='C18', title='Welded joints of rectangular hollow sections follow EN 1993-1-8',
      statement='For every chord, brace angle, gap, force and material, the failure resistances (chord face, chord shear, side wall, brace, punching shear) of K gap, Y and X joints of rectangular hollow sections and their utilisation, '
      'with the chord stress, strength reduction, interpolation between side wall and chord face failure and the sign of the brace force, are those of EN 1993-1-8, 7.5, whether the joint is given by itself or belongs to a truss. '
      'The gap, eccentricity, angles, intersection and face points of a truss joint are consistent with its members and with its symmetric joint, and it is designed for the larger chord force.',
      over=['inputs'],
      quant='symbolic dimensions (walls of 6-10 mm), angles, strengths, gaps, forces and partial factors; truss joints on 7 layouts (eccentricities of either sign, sloping, upper and lower chords)',
      why='No test designs a hollow section joint; which failure mode governs, interpolation ranges and the geometry of a joint depend on all values.',
      files=[J8 + 'rhs_joints.py', RM + 'raami_plane_truss.py'],
      mech=[('joints by themselves', J8 + 'rhs_joints.py'), ('joints of trusses', RM + 'raami_plane_truss.py TubularKGapJoint, TubularYJoint')],
      tech=VG, note=VGN + ' Layouts of truss joints are fixed. Joints with three braces, bending moments of truss chords, cost and the 2020 proposal functions are outside the property.'),
]
OP = 'metku/optimization/'
PROPS += [
 dict(id='C19', title='An optimisation problem evaluates its functions at the point it is given',
      statement='For every problem, with any variables fixed, scaled, grouped, discrete or bounded, the objective, constraint values, feasibility, gradients, linearisation, approximations (CONLIN, MMA), penalty, barrier and Lagrangian functions are '
      'those of the given functions at the given point, with the values of all variables in the structure and the structural analysis of exactly that design and load case behind them. '
      'They depend on neither earlier points nor the order of evaluation, and leave the problem and the problems it is derived from at that point.',
      over=['inputs', 'histories'],
      quant='bilinear functions of variables and of analysis results with symbolic coefficients; three variables in all patterns of fixing; all constraint types and signs of multipliers; sequences of evaluations at several points',
      why='No test evaluates a problem with fixed variables or several load cases twice; a value taken from the previous point, a wrong position of a fixed variable or a wrong sign still gives a number.',
      files=[OP + f for f in ('structopt.py', 'constraints.py', 'objective.py', 'variables.py', 'opt_functions.py')],
      mech=[('problem', OP + 'structopt.py'), ('constraints and objective', OP + 'constraints.py, objective.py'), ('variables', OP + 'variables.py'), ('approximations', OP + 'opt_functions.py')],
      tech=VG, note=VGN + ' Problems of three variables with numeric points; finite differences are exact since the functions are linear in each variable. Points closer than the tolerance of the constraints are one point.'),
 dict(id='C20', title='Solvers solve the given problem and report the best feasible design they visited',
      statement='For every problem, what reaches the numerical library (objective, equality and inequality constraints, variable bounds, rows of linear and mixed-integer programs, move limits, asymptotes) is the given problem in its free variables, '
      'with constraints of every type kept in their sense. '
      'The iteration reports the best feasible design among those it visited, or the last one, with its own objective value and the history of the points in order, and stops only when the change of a feasible design is within the tolerances.',
      over=['inputs', 'histories'],
      quant='objective and constraints with symbolic coefficients, all constraint types, four patterns of fixed variables, minimisation and maximisation; SLSQP, COBYLA, trust region, SLP, MISLP, MMA; iterations of three points in all patterns of feasibility',
      why='No test runs a solver; a lost sign, bound or constraint gives a design that looks optimal, and a stale or overwritten best design is returned silently.',
      files=[OP + 'solvers/' + f for f in ('optsolver.py', 'slsqp.py', 'trust_region.py', 'slp.py', 'mislp.py', 'mma.py')],
      mech=[('iteration', OP + 'solvers/optsolver.py'), ('sub-problems', OP + 'solvers/slp.py, mislp.py, mma.py'), ('calls of scipy', OP + 'solvers/slsqp.py, trust_region.py')],
      tech=VG, note=VGN + ' The numerical libraries are replaced by stand-ins; convergence, genetic and swarm methods, branch and bound and plain LP/MILP solvers are outside the property.'),
]
TI = 'metku/structures/timber/timber_member.py'
TS = 'metku/sections/timber/timber_section.py'
PROPS += [
 dict(id='C21', title='Timber sections and members follow EN 1995, also in fire',
      statement='For every strength class, service class and load duration the design strengths, and for every force, size and set of lateral supports the utilisations of rectangular timber members in axial force, shear, bending, torsion, bending with '
      'tension or compression, buckling and lateral-torsional buckling between the supports, the bracing forces and the apex factors and checks of double tapered beams are those of EN 1995-1-1. '
      'At every time of a fire the charred section on three or four sides, each unprotected or protected in its own way, is that of EN 1995-1-2, and heights and section properties along tapered and curved beams are those of their geometry also after a change.',
      over=['inputs', 'histories'],
      quant='all strength classes except GL30; symbolic dimensions, times, forces of either sign; supports in any order; all torsion ratios of the tables and others within bounds; protections that fail when or after charring starts',
      why='The repository has no test of timber design; a sign of a moment, an unsorted support, a protection phase or a taper beyond the apex is a matter of values.',
      files=['metku/eurocodes/en1995/en1995_1_1.py', 'metku/eurocodes/en1995/en1995_1_2.py', 'metku/eurocodes/en1995/fire_protection.py', 'metku/materials/timber_data.py', TS, TI],
      mech=[('charring', 'metku/eurocodes/en1995/en1995_1_2.py'), ('sections', TS), ('members', TI)],
      tech=VG, note=VGN + ' Buckling and lateral-torsional buckling with several segments are decided at fixed numbers. Size factors of tension in solid timber and glulam, flatwise LVL bending, compression perpendicular to grain, default buckling factors from supports, '
      'single-tapered reduction, volumes of curved apexes and the time when unprotected charring resumes after delayed failure are outside the property.'),
 dict(id='C22', title='Fabrication costs are the sum of the work, whatever was quoted before',
      statement='For every size, steel grade, thickness and cost-centre data the cost of blasting, cutting, painting, sawing and assembly welding equals time of work times the unit costs of the centre plus consumables and energy as the feature-based method describes them. '
      'The cost of a plate, of a bolted end plate or fin plate connection, of a welded tubular joint, of a truss member and of a truss is the sum of the material, the work and the fasteners it contains, and the reported distribution adds up to the total. '
      'A quote depends only on what is quoted: earlier quotes, other workshops and earlier dimensions, holes, welds or stiffeners of the same part do not change it.',
      over=['inputs', 'histories'],
      quant='symbolic sizes, times and centre data; all paints, wire and sawing grades, thickness classes, weld types and bevels; histories of quotes for thinner and thicker work',
      why='The repository has no test of costs; stale times and consumables and class limits show only for particular sequences and sizes.',
      files=['metku/cost/workshop.py', 'metku/cost/cost_data.py', 'metku/structures/steel/plates.py', 'metku/structures/steel/end_plate_joint.py', 'metku/structures/steel/fin_plate_joint.py', 'metku/raami/raami_plane_truss.py'],
      mech=[('cost centres', 'metku/cost/workshop.py'), ('plates', 'metku/structures/steel/plates.py'), ('truss', 'metku/raami/raami_plane_truss.py')],
      tech=VG, note=VGN + ' Beam welding and drilling centres (unfinished, undefined names) and the separate script cost_calculation.py are outside the property.'),
 dict(id='C23', title='Generated trusses have the shape, web, joints, supports and loads described',
      statement='For every span, ridge position, height, slope and shortening of the bottom chord the nodes of a generated roof truss lie on straight chords, divide them into the panels of the topology, and are joined by exactly the chord members and braces of that topology, each with the given profile. '
      'Joints collect the chords and braces that meet at their node, mirrored parts of a symmetric truss correspond, supports are at the ends asked for, and uniform and zoned loads reach every chord member exactly once with the value of its zone and the split at the zone boundary. '
      'The same holds for Vierendeel trusses and for trusses given as nodes and bars.',
      over=['inputs'],
      quant='symbolic spans, ridge positions, heights, slopes, zone boundaries and loads; K, N and KT topology with 2 to 4 divisions, first diagonal up or down, bottom chord full or shortened, with and without edge verticals',
      why='The tests of the generator need graphics or build one truss; wrong panels, braces or zones show only for other topologies, unequal halves or particular zone boundaries.',
      files=['metku/raami/raami_plane_truss.py', 'metku/raami/raami_vierendeel.py', 'metku/raami/raami_simple_truss.py'],
      mech=[('roof trusses', 'metku/raami/raami_plane_truss.py'), ('Vierendeel trusses', 'metku/raami/raami_vierendeel.py'), ('given bars', 'metku/raami/raami_simple_truss.py')],
      tech=VG, note=VGN + ' Positions in K trusses are claimed for a shortened bottom chord and equal halves only (otherwise the connectivity and the straight chords); the stale second copy of SlopedTruss inside raami_vierendeel.py is outside the property.'),
 dict(id='C24', title='Composite beams, studs and concrete filled tubes follow EN 1994-1-1',
      statement='For every concrete class, age, size and humidity strength, stiffness and creep of concrete are those of EN 1992-1-1, and the resistance of a shear stud is the smaller of those of its shank and of the concrete in EN 1994-1-1. '
      'For every steel section, slab, length and load the effective width, centroid, short- and long-term stiffness, plastic neutral axis and plastic moment of a composite beam, and the geometry of concrete and bars, stiffness, critical force, buckling resistance, plastic moment and imperfection of a concrete filled rectangular tube, are those of the theory of composite sections and of EN 1994-1-1.',
      over=['inputs'],
      quant='symbolic dimensions, areas, second moments, strengths, moduli, times and loads; all concrete classes, solid and composite slabs, steel strengths on both sides of the limits, tube walls of the three radius classes, bars below and above three per cent',
      why='The repository has no test of composite members; wrong neutral axis branches and corner terms show only for particular proportions.',
      files=['metku/eurocodes/en1992/constants.py', 'metku/eurocodes/en1992/en1992_1_1.py', 'metku/eurocodes/en1994/en1994_1_1.py', 'metku/sections/composite/composite_beam.py', 'metku/sections/composite/composite_column.py'],
      mech=[('concrete', 'metku/eurocodes/en1992/constants.py'), ('beam', 'metku/sections/composite/composite_beam.py'), ('filled tube', 'metku/sections/composite/composite_column.py')],
      tech=VG, note=VGN + ' The design strength of concrete in beams is taken with the factor 0.85 of EN 1992-1-1 as the code does; bending about the minor axis and the printed summary design() of filled tubes are outside the property.'),
]
PROPS += [
 dict(id='C90', title='Results converge to the exact solution when elements are refined',
      statement='For every frame the displacements, forces and critical load factors found converge to those of beam theory as the number of elements per member grows, within the accuracy of floating-point arithmetic.',
      quant='all frames and numbers of elements', why='A test has a few meshes.', files=['metku/framefem/framefem.py'], mech=[('solution and eigenvalues', 'metku/framefem/framefem.py')],
      na='a statement about limits and rounding of numerical linear algebra and eigenvalue solvers in scipy; no static argument over this source bounds it (exact element and frame solutions are decided by C10-C12)'),
 dict(id='C91', title='Optimisation reaches an optimum',
      statement='For every problem with a solution the solvers end at a point that satisfies the optimality conditions of the problem within the tolerances.',
      quant='all problems and starting points', why='A test has a few problems.', files=['metku/optimization/solvers/optsolver.py'], mech=[('solvers', 'metku/optimization/solvers')],
      na='depends on convergence of iterations inside scipy and OR-tools and on the problem; only the problem handed over and the report of visited designs can be decided from the source (C20)'),
 dict(id='C92', title='Exported models are the frame when read by the other program',
      statement='For every frame the files written for Robot, Abaqus and similar programs describe to those programs the same structure, loads and supports.',
      quant='all frames', why='A test has no such program.', files=['metku/raami/exports.py'] if __import__('os').path.exists('/repo/metku/raami/exports.py') else ['metku/raami/raami.py'], mech=[('exports', 'metku/raami/raami.py')],
      na='the meaning of the files is defined by closed external programs, of which nothing is in the repository; text of the files could only be compared with the code that writes it'),
 dict(id='C93', title='Stochastic optimisation is reproducible and stays in the allowed designs',
      statement='For every seed of the random generator the genetic and swarm methods return the same design each time, and one of the allowed designs.',
      quant='all seeds and problems', why='A test runs a few seeds.', files=['metku/optimization/solvers/ga.py'], mech=[('genetic algorithm', 'metku/optimization/solvers/ga.py')],
      na='the operators are those of the deap library, which is not installed, and random numbers come from two global generators in the libraries; nothing in this source determines the sequences'),
]
