"""Writes /verif/properties.jsonl (kept as Python so that the text is easy to edit)."""
import json, os
R = []
def P(id, title, statement, over, text, why, files, mech):
    R.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(','), text=text),
                  why_tests_cant=why, anchors=dict(files=['PyNite/' + f for f in files.split()],
                  mechanism=[dict(name=n, where=w) for n, w in mech])))

T_NUM = 'The tests run a few textbook models with fixed numbers; the claim is about every real value of the inputs.'

P('M01', 'Member stiffness is the exact prismatic beam stiffness',
  'For every section, material and length, an unreleased frame member resists end displacements with a symmetric stiffness equal to the exact axial, torsional and two-plane Euler-Bernoulli beam stiffness. Rigid-body motions produce no end forces, and the end forces of any displacement are in equilibrium.',
  'inputs', 'all positive E, G, A, Iy, Iz, J, L and all end displacements, in any member orientation', T_NUM,
  'Member3D.py', [('local stiffness', 'Member3D.k/_k_unc'), ('global transform', 'Member3D.K')])
P('M02', 'End releases carry no force and release nothing else',
  'A released end action is zero for every load and every end displacement, and all remaining end actions equal those of the same member with an internal hinge or slide at that end (static condensation). Members without releases are unaffected.',
  'inputs,configurations', 'all statically admissible combinations of the 12 releases, all properties, loads and displacements', 'Only a few release patterns are tested (pinned ends); there are hundreds of combinations and they interact with loads.',
  'Member3D.py', [('condensation', 'Member3D._partition, k, fer'), ('stored releases', 'FEModel3D.def_releases')])
P('M03', 'Member local axes are orthonormal, right-handed and as documented',
  'For any two distinct end nodes the member local axes are an orthonormal right-handed triad whose x-axis runs from the start to the end node. Without an auxiliary node the local z-axis is horizontal and local y points upward for members that are not vertical, and vertical members keep their local z-axis along global Z; with an auxiliary node, that node lies in the local x-z plane on the positive z side.',
  'inputs,configurations', 'all node coordinates and auxiliary node positions (not on the member axis)', 'Tests only use axis-aligned and a few sloped members; wrong branches for vertical/inclined/flipped members are data dependent.',
  'Member3D.py', [('direction cosines', 'Member3D.T')])
P('M04', 'Fixed-end reactions are statically and kinematically exact',
  'For every load type (point force, point moment, linearly varying distributed load, axial load, torque) the clamped-end reactions balance the applied load in force and moment and produce zero displacement and rotation at both clamped ends. Loads combine by load factor and load case, and only the cases of the combination contribute.',
  'inputs,configurations', 'all magnitudes, positions 0<=x<=L, partial ranges x1<x2, factors and cases', T_NUM,
  'FixedEndReactions.py Member3D.py', [('FER formulas', 'FER_*'), ('assembly per combo', 'Member3D._fer_unc')])
P('M05', 'Loads in global directions equal their local components',
  'A member load given in a global direction has exactly the effect of its components along the member local axes, in member end reactions and in internal forces alike, whatever the member orientation.',
  'inputs,configurations', 'all member orientations, magnitudes, positions and load directions', 'Sloped-beam tests cover one slope and one direction; the code repeats the decomposition in several places that must agree.',
  'Member3D.py', [('global direction handling', 'Member3D._fer_unc, _segment_member')])
P('M06', 'Internal force diagrams satisfy equilibrium of every cut',
  'After a linear analysis, at every position along a member, the reported axial force, shears, torque and bending moments equal the resultants of the end forces and the applied loads on one side of the cut. This includes discontinuous loads and positions between any two load points.',
  'inputs,configurations', 'all end displacements, load magnitudes, positions, cut positions, and combinations of load types', 'Tests evaluate diagrams at selected points for single loads; segmentation errors show only for particular overlaps of loads and positions.',
  'Member3D.py BeamSegY.py BeamSegZ.py', [('segmentation', 'Member3D._segment_member'), ('segment polynomials', 'BeamSegZ/BeamSegY')])
P('M07', 'Deflection diagrams integrate the bending moment and fit the ends',
  'After a linear analysis, for members without translational end releases, the reported member deflections satisfy the beam equation (curvature equals moment over EI; axial strain equals axial force over EA) between load points, are continuous with continuous slope across them, and agree with the nodal displacements at both ends. Relative deflection is the deflection measured from the chord.',
  'inputs,configurations', 'all loads, end displacements, rotational end releases, cut positions', 'Tests compare maxima or a few points; the integration constants are carried from segment to segment, so errors need a later segment or an unusual end condition.',
  'Member3D.py BeamSegY.py BeamSegZ.py', [('integration constants', 'Member3D._segment_member'), ('segment deflection', 'BeamSegZ.deflection, BeamSegY.deflection')])
P('M08', 'Reported maxima and minima bound the diagram and are attained',
  'After a linear analysis, the reported maximum and minimum shear, moment, torque, axial force bound the corresponding diagram at every position and equal its value somewhere along the member. With several load combinations each combination has its own extremes.',
  'inputs,configurations', 'all loads, end displacements and positions', 'An interior extreme needs particular load/shear sign patterns; tests contain a handful.',
  'Member3D.py BeamSegY.py BeamSegZ.py PhysMember.py', [('segment extremes', 'BeamSegZ.max_moment, BeamSegY.max_moment'), ('member extremes', 'Member3D.max_*/min_*')])
P('M09', 'Array results agree with point results',
  'For every member result (shear, moment, torque, axial, deflection, relative deflection), the array form returns exactly the values of the point form at the listed positions, for user-supplied positions as well as for a requested number of points; exactly at a jump of the diagram either one-sided value is allowed.',
  'inputs,configurations', 'all loads, positions, and load combinations', 'The array form is a separate vectorised implementation used mostly for plotting; tests touch few of its branches.',
  'Member3D.py PhysMember.py BeamSegY.py BeamSegZ.py', [('vectorised results', 'Member3D._extract_vector_results and *_array')])
P('M10', 'Nodes on a member do not change its behaviour',
  'A member with nodes lying on it behaves exactly as one continuous member: it connects to those nodes, its loads keep their total effect and position, its end releases stay at its ends, and its results at any position are continuous with those of an unsubdivided member under the same loading.',
  'inputs,configurations', 'all node positions along the member, load types and positions, orientations', 'Tests contain at most a couple of subdivided members; splitting of linearly varying loads depends on where nodes fall relative to the load.',
  'PhysMember.py', [('subdivision', 'PhysMember.descritize'), ('sub-member lookup', 'PhysMember.find_member')])
P('M11', 'Member self-weight is volume times density in the chosen direction',
  'Adding self-weight loads every member with a uniform load equal to cross-section area times material density times the given factor in the chosen global direction and load case, so the total added force is the total weight.',
  'inputs,configurations', 'all geometries, densities, factors, directions', T_NUM,
  'FEModel3D.py', [('self weight', 'FEModel3D.add_member_self_weight')])
P('M12', 'Plotted member diagrams are the member results',
  'Every plot of a member (shear, moment, torque, axial force, deflection, relative deflection, in every direction) shows exactly one curve whose points are the requested number of equally spaced positions from end to end of the member against the member result at that position '
  'in the requested load combination, whatever results or plots were asked for before, and its title names the member and the combination.',
  'inputs,configurations,histories', 'all loads, positions, numbers of points, combinations and orders of requests', 'Plots are not tested: they open windows.',
  'Member3D.py PhysMember.py', [('plots', 'Member3D.plot_shear, plot_moment, plot_torque, plot_axial, plot_deflection, plot_rel_deflection'), ('vector results', 'Member3D._extract_vector_results and *_array')])
P('A01', 'Every node is in equilibrium and supports do what they say',
  'After a linear analysis each node is in equilibrium under applied loads, member, plate and spring forces, spring supports and reactions; supported directions have zero (or the prescribed) displacement and unsupported directions have no reaction. The reaction of every support equals the force the structure actually exerts on it.',
  'inputs,configurations', 'all loads, load combinations, support patterns, material and geometry values of the bounded frames', T_NUM,
  'Analysis.py FEModel3D.py Node3D.py', [('solve', 'FEModel3D.analyze/analyze_linear'), ('reactions', 'Analysis._calc_reactions'), ('partition', 'FEModel3D._partition')])
P('A02', 'Reactions balance the applied loads globally',
  'For every load combination the sum of all reactions balances the sum of all factored applied loads in the three forces and the three moments about any point.',
  'inputs,configurations', 'all loads on nodes, members and plates, factors, and support patterns of the bounded models', T_NUM,
  'Analysis.py FEModel3D.py', [('load vector', 'FEModel3D.P, FER'), ('reactions', 'Analysis._calc_reactions')])
P('A03', 'Linear response superposes',
  'For a structure without unilateral elements, displacements, reactions and internal forces are linear in the loads: the response to a combination equals the factored sum of the responses to its load cases. The general and the linear-only solver give the same results.',
  'inputs,configurations', 'all load values and factors', T_NUM,
  'Analysis.py FEModel3D.py LoadCombo.py', [('analysis drivers', 'FEModel3D.analyze, analyze_linear')])
P('A04', 'Sparse and dense solvers give identical results',
  'Choosing the sparse or the dense solver never changes displacements, reactions or internal forces, for linear, general and P-Delta analysis.',
  'inputs,configurations', 'all values; models with members, springs, spring supports, plates, enforced displacements', 'Tests almost always use the default (sparse) path; the two assembly paths are separate code.',
  'FEModel3D.py Analysis.py', [('assembly', 'FEModel3D.K(sparse), Kg(sparse)')])
P('A05', 'Results depend only on the current model, not on history',
  'Re-running an analysis, or running it after any earlier analysis and edit, gives exactly the results of a freshly built identical model, and the results of one load combination are not affected by which other combinations exist or their order.',
  'histories,configurations', 'all sequences (up to the bound) of analyses and edits of loads, supports, springs, releases; all values', 'State left from one run (active flags, cached segments, stored solution type) only matters in particular sequences.',
  'FEModel3D.py Analysis.py Member3D.py PhysMember.py', [('per-analysis reset', 'Analysis._prepare_model'), ('cached segments', 'Member3D._solved_combo'), ('active flags', 'active dictionaries')])
P('A06', 'Combination tags select exactly the tagged combinations',
  'When combination tags are given, exactly the combinations carrying at least one of those tags are analysed; without tags every combination is, and with no combination defined a default one is used.',
  'inputs,configurations', 'all tag sets', 'Tests never use tags.', 'Analysis.py FEModel3D.py', [('tag filter', 'Analysis._identify_combos')])
P('A07', 'Enforced displacements are met exactly and statics still hold',
  'A prescribed nodal displacement or rotation is reproduced exactly at its degree of freedom, all other supported directions stay at rest, and the member forces and reactions are in equilibrium with the loads.',
  'inputs,configurations', 'all prescribed values on all six directions, all loads', 'One settlement test exists; it fixes the direction and the numbers.',
  'FEModel3D.py Analysis.py', [('known displacements', 'FEModel3D._aux_list, def_node_disp'), ('partitioned solve', 'FEModel3D.analyze')])
P('A08', 'Tension/compression-only members obey their unilateral law',
  'In a converged general analysis no tension-only member carries compression and no compression-only member carries tension; inactive members carry no force from the frame and active ones act as ordinary members; nothing is switched off when the ordinary structure already obeys the law. Each load combination has its own set of active members.',
  'inputs,configurations', 'all load values (both signs), stiffness values, braces', 'The active set depends on load values; tests contain a few cases with one load pattern.',
  'Analysis.py Member3D.py FEModel3D.py', [('iteration', 'Analysis._check_TC_convergence'), ('activation', 'PhysMember.active')])
P('A09', 'Tension/compression-only springs obey their unilateral law',
  'In a converged general analysis no tension-only spring is compressed and no compression-only spring is stretched, inactive springs exert no force and active ones act as ordinary springs, separately for every load combination.',
  'inputs,configurations', 'all load values (both signs) and stiffnesses', 'Spring tests are linear.', 'Analysis.py Spring3D.py', [('iteration', 'Analysis._check_TC_convergence'), ('spring force', 'Spring3D.f')])
P('A10', 'One-way spring supports push only one way and balance their node',
  'A support spring exerts the restoring force stiffness times displacement, opposite to the displacement, as reaction; a one-way spring acts only for displacement in its sense, is inactive otherwise, and its state for one load combination never affects another.',
  'inputs,configurations', 'all stiffnesses, load values and signs, all six directions, several combinations', 'One test with a single combination and load sign.',
  'FEModel3D.py Analysis.py', [('support springs', 'FEModel3D.def_support_spring, K'), ('spring activation', 'Analysis._check_TC_convergence'), ('reaction', 'Analysis._calc_reactions')])
P('A11', 'P-Delta uses the correct geometric stiffness and reduces to linear',
  'The geometric stiffness is symmetric, proportional to axial force and consistent with the cubic beam shape; a P-Delta solution satisfies the equilibrium equations with elastic plus geometric stiffness. With no axial force the P-Delta results are the linear results.',
  'inputs,configurations', 'all properties, axial forces, loads', 'Benchmarks check three structures to a tolerance.',
  'Analysis.py Member3D.py FEModel3D.py', [('geometric stiffness', 'Member3D.kg, FEModel3D.Kg'), ('iteration', 'Analysis._PDelta_step')])
P('A12', 'Unstable models are reported, stable ones are not',
  'When stability checking is on, a degree of freedom with no stiffness and no restraint makes the analysis raise an error, naming the node and the direction on the console, instead of returning numbers, and a model in which every free degree of freedom has stiffness passes. A singular system never silently yields results.',
  'inputs,configurations', 'all support and release patterns of the bounded models', 'One unstable model is tested.', 'Analysis.py FEModel3D.py', [('stability check', 'Analysis._check_stability'), ('singular solve', 'FEModel3D.analyze')])
P('A13', 'The statics check reports true sums',
  'The statics check lists, per combination, the totals of applied loads and of reactions in six components about the origin, including nodes, members, plates and quads, and the two agree for every analysed model (without moments applied about the normal of a plate, which only act on a fictitious drilling stiffness).',
  'inputs,configurations', 'all loads and geometries of the bounded models', 'Tests do not run it.', 'Analysis.py', [('statics check', 'Analysis._check_statics')])
P('A14', 'Results are frame- and order-invariant',
  'Renaming nodes and members, defining them in another order, moving the whole model, or turning it rigidly together with its loads changes no internal force, and displacements and reactions only by the same motion.',
  'inputs,configurations', 'all translations and a family of rigid rotations, permutations of definition order', 'Tests fix one frame and one order per model.', 'FEModel3D.py Member3D.py Analysis.py', [('numbering', 'Analysis._renumber'), ('axes', 'Member3D.T')])
P('S01', 'Two-node springs are pure axial springs',
  'A two-node spring resists only the change of distance along its axis with its stiffness, is symmetric, balanced, and free of forces under rigid motion to first order, for every orientation.',
  'inputs', 'all end points, stiffnesses, displacements', T_NUM, 'Spring3D.py', [('spring stiffness', 'Spring3D.k, K, T')])
P('P01', 'Rectangular plate stiffness is exact, symmetric and rigid-body free',
  'For every size, thickness and isotropic material, the rectangular plate stiffness is symmetric, produces no forces for rigid-body motion (apart from the artificial drilling stiffness about the element normal), and its membrane and bending parts equal the element energy of the documented shape functions, so reported moments are consistent with the stiffness.',
  'inputs', 'all widths, heights, thicknesses, E, nu', T_NUM, 'Plate3D.py', [('bending stiffness', 'Plate3D.k_b'), ('membrane stiffness', 'Plate3D.k_m'), ('moments', 'Plate3D.moment, Db')])
P('P02', 'Quadrilateral stiffness is symmetric, rigid-body free and that of the documented element',
  'For every convex planar quadrilateral, thickness and material, its stiffness is symmetric and rigid-body motions (translations and rotations, apart from the artificial drilling stiffness about the element normal) cause no forces; for any nodal displacements its end forces, moments, shears and membrane stresses are those of the documented element (DKMQ plate bending with a bilinear membrane).',
  'inputs', 'all convex node positions within the bound, thickness, E, nu', T_NUM, 'Quad3D.py', [('bending stiffness', 'Quad3D.k_b'), ('membrane stiffness', 'Quad3D.k_m'), ('transform', 'Quad3D.T')])
P('P03', 'Plates and quads reproduce constant membrane stress',
  'Any linear in-plane displacement field gives, at every point of a plate or quad, the exact plane-stress membrane stresses, and the element end forces equal those stresses integrated along the edges. Each axis stiffness factor scales the direct stress along its own axis only.',
  'inputs', 'all strains, shapes, materials, evaluation points', T_NUM, 'Plate3D.py Quad3D.py', [('membrane', 'Plate3D.membrane, Quad3D.membrane, k_m')])
P('P04', 'Plates and quads reproduce constant bending',
  'Any constant-curvature bending field gives, at every point of a plate or quad, the exact plate bending and twisting moments (in the sign convention of the element type) with zero transverse shear.',
  'inputs', 'all curvatures, shapes, materials, evaluation points', T_NUM, 'Plate3D.py Quad3D.py', [('moment', 'Plate3D.moment, Quad3D.moment'), ('shear', 'Plate3D.shear, Quad3D.shear')])
P('P05', 'Surface pressure is applied with its full resultant',
  'Pressure on a plate or quad is applied as nodal forces whose resultant is pressure times area along the element normal acting through its pressure centre, scaled by the factors of the combination and only for its cases.',
  'inputs,configurations', 'all pressures, shapes, factors, orientations', T_NUM, 'Plate3D.py Quad3D.py FEModel3D.py', [('pressure loads', 'Plate3D.fer, Quad3D.fer'), ('assembly', 'FEModel3D.FER')])
P('P06', 'Plate models are in equilibrium after analysis',
  'After analysis of a model with plates and quads, every node is in equilibrium with element forces, reactions and loads, in every load combination and for every solver.',
  'inputs,configurations', 'all pressures, nodal loads, prescribed displacements on bounded patches', T_NUM, 'Analysis.py Plate3D.py Quad3D.py FEModel3D.py', [('reactions', 'Analysis._calc_reactions'), ('assembly', 'FEModel3D.K')])
P('P07', 'Mesh extremes are the extremes of their elements',
  'The maximum and minimum shear and moment reported for a mesh, in any direction and for one or all load combinations, bound the values of all its elements at their corners and centres, and are attained by one of them.',
  'inputs,configurations', 'all loads on the bounded meshes, all directions and combinations', 'Tests compare one maximum of one mesh with a handbook value.', 'Mesh.py', [('extremes', 'Mesh.max_shear, min_shear, max_moment, min_moment')])
P('G01', 'Rectangle meshes tile exactly the requested region',
  'A rectangular mesh covers exactly the requested rectangle minus its openings with non-overlapping elements of consistent orientation, has nodes on every control line and opening corner, no duplicate or orphan nodes, and elements no larger than the mesh size.',
  'inputs,configurations', 'all sizes, origins, planes, control lines and openings within the element bound', 'Tests use a few meshes and compare stresses only.', 'Mesh.py FEModel3D.py', [('mesh', 'RectangleMesh.generate'), ('openings', 'RectangleMesh.add_rect_opening')])
P('G02', 'Ring, frustum and cylinder meshes lie on their surface',
  'Annulus, frustum and cylinder meshes place every node on the intended surface about the requested axis and origin, with element corners connected consistently, closed around the ring and without gaps between rings.',
  'inputs,configurations', 'all radii, heights, origins, axes for bounded element counts', 'Tests use one tank.', 'Mesh.py', [('annulus', 'AnnulusMesh, AnnulusRingMesh, AnnulusTransRingMesh'), ('cylinder', 'CylinderMesh'), ('frustum', 'FrustrumMesh')])
P('G03', 'Mesh generation never disturbs existing entities',
  'Generating a mesh leaves every node and element already in the model in place, and all mesh nodes and elements are reachable in the model under unique names that match their own.',
  'histories,configurations', 'all orders of meshes and manual additions within the bound', 'Tests build a single mesh per model mostly.', 'Mesh.py FEModel3D.py', [('rename', 'Mesh._rename_duplicates')])
P('E01', 'Names are unique and unknown references are rejected',
  'Adding an entity under a name already in use is refused and leaves the model unchanged; automatic names never collide with existing ones; naming a missing node, material or other entity raises an error.',
  'histories,inputs', 'all add sequences up to the bound over all entity types', 'Not tested.', 'FEModel3D.py', [('add methods', 'FEModel3D.add_*'), ('automatic names', 'FEModel3D.unique_name')])
P('E02', 'Merging duplicate nodes preserves the structure',
  'Merging coincident nodes leaves exactly one node per location, keeps every member, spring, plate and quad connected to the same points, keeps all supports, spring supports, loads and prescribed displacements, and does not merge nodes farther apart than the tolerance.',
  'inputs,configurations', 'all coordinates, tolerances, attachments within the bound', 'Not tested beyond a mesh.', 'FEModel3D.py', [('merge', 'FEModel3D.merge_duplicate_nodes')])
P('E03', 'Deleting an entity leaves no trace and breaks nothing else',
  'Deleting a node, auxiliary node, spring or member, or all loads, removes it and everything attached to it that cannot exist without it, and leaves all other entities and results as if it had never been added.',
  'histories', 'all deletions on the bounded models', 'Not tested.', 'FEModel3D.py', [('delete', 'FEModel3D.delete_*'), ('orphans', 'FEModel3D.orphaned_nodes')])
P('E04', 'Renaming keeps all entities',
  'Renaming all entities keeps every entity exactly once, keyed by its own name, and changes no analysis result.',
  'histories', 'all initial namings of the bounded models', 'Not tested.', 'FEModel3D.py', [('rename', 'FEModel3D.rename')])
P('E05', 'Load combinations contain exactly what was put in them',
  'A load combination consists of exactly the load cases and factors given to it, independent of other combinations, and all load cases in use are found.',
  'histories,inputs', 'all factor values and construction sequences', 'Not tested.', 'LoadCombo.py FEModel3D.py', [('combination', 'LoadCombo'), ('cases', 'FEModel3D.load_cases')])
P('E06', 'Every definition is recorded as given',
  'Whatever is given when a node, material, section, spring, member, plate, quad, mesh, support, support spring, prescribed displacement, release, load or combination is defined is what the model holds for that entity afterwards; a later support, spring, displacement or release definition replaces the earlier one, loads accumulate, the model no longer counts as solved, and no other entity changes.',
  'inputs,histories', 'all values, flags, directions and sequences of definitions', 'Tests define each kind of entity once, mostly with symmetric data.', 'FEModel3D.py Node3D.py Member3D.py PhysMember.py Spring3D.py Plate3D.py Quad3D.py Material.py Section.py Mesh.py LoadCombo.py',
  [('definitions', 'FEModel3D.add_*, FEModel3D.def_*'), ('entities', 'Node3D, PhysMember, Spring3D, Plate3D, Quad3D, Material, Section, LoadCombo')])
P('C01', 'Section interaction surfaces and their gradients agree',
  'The plastic interaction function of a steel section is homogeneous in the sense of its design equation and its reported gradient is the derivative of that function, so plastic flow is normal to the surface.',
  'inputs', 'all axial forces and moments, section properties', 'Not tested.', 'Section.py', [('interaction', 'SteelSection.Phi'), ('gradient', 'Section.G')])
P('V01', 'The PyVista scene shows the model, its loads and its results',
  'The scene built by Rendering.Renderer has every node, member, spring, plate and quad drawn and labelled at its position and every support drawn at its node along the supported directions (nothing is drawn for free directions). '
  'The deformed shape is the undeformed position plus the analysis displacement of the requested combination times the requested scale for nodes and elements and along each member that is active in the combination. '
  'Plate contours are, at every corner, the mean of what the elements meeting at that node report there for the requested combination. Loads are drawn where they act, in the direction they act, with sizes in '
  'proportion to their values, and labelled with their values, by load case or factored by load combination; loads of other cases are not drawn.',
  'inputs,configurations', 'all node positions, support patterns, load values and directions, displacements and scales of the bounded models', 'The renderers are not tested: they need a display.',
  'Rendering.py', [('scene', 'Rendering.Renderer.update'), ('deformed shape', 'Renderer.plot_deformed_member, plot_deformed_node, DeformedShape'), ('contours', 'Renderer.plot_plates, _PrepContour, _AverageContours'), ('loads', 'Renderer.plot_loads')])
P('V03', 'The VTK scene shows the model, its loads and its results',
  'The scene built by Visualization.Renderer and Visualization.render_model has every node, member, spring, plate and quad drawn and labelled at its position and every support drawn at its node along the supported directions (nothing is drawn for free directions). '
  'The deformed shape is the undeformed position plus the analysis displacement of the requested combination times the requested scale for nodes and elements and along each member that is active in the combination. '
  'Plate contours are, at every corner, the mean of what the elements meeting at that node report there for the requested combination. Loads are drawn where they act, in the direction they act, with sizes in '
  'proportion to their values, and labelled with their values, by load case or factored by load combination; loads of other cases are not drawn.',
  'inputs,configurations', 'all node positions, support patterns, load values and directions, displacements and scales of the bounded models', 'The renderers are not tested: they need a display.',
  'Visualization.py', [('scene', 'Visualization.render_model, Renderer.update'), ('visual objects', 'VisNode, VisMember, VisSpring, VisDeformedMember, VisPtLoad, VisDistLoad, VisMoment, VisAreaLoad'), ('contours', '_PrepContour, _AverageContours, _RenderContours')])
P('V02', 'Reports list the model and the results of its analysis',
  'A report made by Reporting.create_report has the tables of nodes and supports, members, member end releases, plates, quads, node reactions, node displacements, member end forces, member extremes, and plate and quad corner and centre results; each option set to False removes exactly its tables, all are on by default. '
  'The input tables list every entity once with its definition; the result tables list every entity once for each analysed load combination with the values the model reports for that entity in that combination (for plates and quads the local results at the i, j, m and n corner in that order, or at the centre).',
  'inputs,configurations', 'all loads, factors, section, material and position values of the bounded models', 'The report is not tested (it needs an external program); its template is a separate program with one expression per cell.',
  'Reporting.py', [('report', 'Reporting.create_report'), ('template', 'Report_Template.html')])
P('X01', 'Pushover analysis respects the yield surface', 'A pushover analysis never lets the internal forces of a section leave its yield surface and unloads elastically.',
  'inputs,histories', 'all load paths', 'The only test is disabled.', 'Analysis.py Member3D.py FEModel3D.py', [('pushover', 'FEModel3D.analyze_pushover, Analysis._pushover_step')])
P('X02', 'Floating-point results are close to exact ones', 'Displacements and forces computed in floating point differ from the exact solution of the model equations only by a small multiple of the conditioning of the system.',
  'inputs', 'all models', 'Would need error analysis over all inputs.', 'FEModel3D.py Analysis.py', [('solve', 'numpy.linalg.solve, scipy spsolve')])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
        for r in R:
            f.write(json.dumps(r) + '\n')
    print(len(R))
