NOTES = {
'M01': 'Stiffness obtained by analysing the member with all twelve end displacements enforced; compared with the closed-form Euler–Bernoulli matrix and, in global axes, with rigid-motion and symmetry laws. Holds for all sections, lengths and directions at once; tests only use a handful of members.',
'M02': 'Reference is static condensation of the exact matrix and load vector written down independently; every release pattern is an instance, numbers are symbolic.',
'M03': 'Orthonormality, handedness and the documented orientation rules as polynomial identities/inequalities over arbitrary node positions; every orientation branch of the code is a path.',
'M04': 'Exact clamped-beam solutions derived by integration of shape functions, for every load type and position.',
'M05': 'The same member loaded once by the global load and once by its three local components; all end forces and diagrams must agree.',
'M06': 'Equilibrium of the part of the member left of a symbolic cut, from end forces and loads; every ordering of cut and load positions is a path.',
'M07': 'Second derivative of the reported deflection (finite differences are exact on each cubic/quintic piece) against the reported moment over EI, continuity at load points, end values from node displacements.',
'M08': 'Bound: no symbolic position has a larger value (solver searches a counterexample over position and loads together). Attainment: the extreme equals the diagram at one of the exact candidates.',
'M09': 'Array against point results at symbolic positions; at a jump either side is accepted.',
'M10': 'The same member with and without nodes on it, everything symbolic, including node positions and loads spanning nodes.',
'M11': 'Total force against sum of area × density × length × factor.',
'A01': 'Independent exact assembly of beam, spring and support stiffness; nodal equilibrium, restraint and reaction law at every degree of freedom.',
'A02': 'Sum of reactions and factored loads, forces and moments about a symbolic point.',
'A03': 'Superposition identities between analyses of the same model under different symbolic factors, across solvers.',
'A04': 'Sparse against dense path of the same code on the same model; also that singular systems are refused by both.',
'A05': 'History against a freshly built model: every result after a sequence of analyses, edits and queries equals that of the final model alone. The histories are instances, the loads symbolic.',
'A06': 'The tags are symbolic sets; the set of analysed combinations is compared with the definition for every assignment.',
'A07': 'Displacement at the enforced degree of freedom, rest elsewhere, and equilibrium with the independent assembly.',
'A08': 'Unilateral complementarity at the reported end state, equilibrium with exactly the active members; the iteration of the solver is executed symbolically, each switching history is a path.',
'A09': 'As A08 for two-node springs.',
'A10': 'As A08 for support springs, plus independence of combinations (state of one must not leak into another).',
'A11': 'Geometric stiffness against exact integrals of the cubic shape functions (with condensation of released rotations); P-Delta solution against an independent second-order assembly; reduction to linear results without axial force; restart after an element goes slack.',
'A12': 'Exactly the models with a zero unrestrained diagonal are reported (message names node and direction), mechanisms never return numbers, stable models always pass.',
'A13': 'The printed table is captured and its twelve numbers per combination compared with sums formed independently, loads against reactions.',
'A14': 'Two models in one run: original and moved/permuted/renamed; results must map onto each other.',
'S01': 'Closed-form axial spring for arbitrary end positions.',
'P01': 'Energy of the documented polynomial shape functions integrated exactly for every pair of degrees of freedom, symbolic size and material.',
'P02': 'Symmetry, rigid-motion null space, independence of start corner and of numbering sense. The element itself is rebuilt from the reference its source names (Katili 1993, DKMQ, plus a bilinear membrane with 2x2 points) as exact polynomials and compared for an arbitrary nodal displacement vector.',
'P03': 'Patch test: linear displacement fields, symbolic coefficients, symbolic point of evaluation; also patches solved by analysis.',
'P04': 'Patch test for constant curvature: moments, zero shear, end forces, patches.',
'P05': 'Resultant force and moment of the nodal forces against pressure × area at the centroid, factors and cases.',
'P06': 'Nodal equilibrium of plate/quad/member/spring forces, loads and reactions for all solvers.',
'P07': 'Extremes against the element values at corners and centres, both bound and attainment, all directions.',
'G01': 'Every point of the plane: area and non-overlap are decided from the sorted grid; node/element incidence, control lines, opening edges and size bound for symbolic dimensions, each ordering of lines is a path.',
'G02': 'Node positions against circle/cone/cylinder equations, incidence closed around and between rings.',
'G03': 'Snapshot of everything in the model before; unchanged and reachable afterwards; names unique and matching.',
'E01': 'Names are drawn by the solver from a colliding pool; the model must equal the model before a refused addition.',
'E02': 'Symbolic node positions and tolerance (each pattern of distances is a path); structure, loads and results against the model with single nodes.',
'E03': 'Model with an added-then-deleted entity against the model without it: structure and results.',
'E04': 'Entities, keys and results before and after renaming, for colliding sets of names.',
'E05': 'Sequences of edits to combinations, shared dictionaries, and the loads each combination responds to.',
'E06': 'The model is read back through its public attributes after definitions with independent symbolic values; every other entity is compared as well. Swapped arguments, lost options and sticky settings differ for some value.',
'C01': 'Interaction equation of the steel section written independently; gradient is its derivative (polynomial identity); convexity consequence; section-based members equal number-based ones.',
'M12': 'matplotlib is replaced by a recorder; the curves handed to it are compared with the point results for symbolic loads, for every plot method, in changing combinations.',
'V01': 'pyvista is replaced by a recorder that keeps the primitives (segments, polylines, faces, glyphs, labels) with symbolic coordinates; the scene is compared with the model, the analysis results and the loads.',
'V03': 'vtk is replaced by a stand-in that carries data through the pipeline (sources, filters, mappers, actors) as VTK does, with symbolic coordinates; the scene is compared with the model, the analysis results and the loads.',
'V02': 'The real template is run by the real jinja2 on the symbolically analysed model (numbers are printed as tokens that stand for exact values); the cells of every table are read back from the HTML and compared with the model. Only the HTML-to-PDF program is replaced.',
}
