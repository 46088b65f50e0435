"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = [observe]
    P.append(d)

prop('F01', 'Tree and forest bookkeeping stays consistent under any history',
 'After any sequence of splitting, adding, removing and deleting nodes, marking, refining and coarsening, every node reachable in a forest reports the position, depth, address, node type, parent and number of children that its place in the structure implies. Looking a node up by its address returns exactly that node, and looking up an address where no node exists returns nothing. Containment, root and maximum-depth queries agree with the same structure.',
 ['histories', 'inputs'], 'every finite history of public structural operations on regular and irregular trees, free standing or inside a forest, and every address or pair of nodes queried afterwards',
 'Unit tests build a handful of two-level trees and look at single attributes; inconsistencies appear only after particular orders of split, remove, delete and re-split.',
 ['src/mesh.py'], [('Tree', 'src/mesh.py:191'), ('Forest', 'src/mesh.py:1098')], 'public accessors of trees and forests')
prop('F02', 'Traversals and leaf queries enumerate exactly the marked (sub)forest',
 'Depth-first and breadth-first traversal of a tree or forest visit every node exactly once in the documented order, and with a flag they yield exactly the nodes carrying it, in that order. The leaves of the forest or of a flagged subforest are exactly its nodes that have no (flagged) children, each once, optionally filtered by a second flag. Nearest flagged ancestor, flagged-parent and flagged-children queries return exactly the node(s) the marking defines.',
 ['histories', 'inputs'], 'every forest shape and every assignment of flags (including falsy flag values) reachable by public operations, every traversal mode and flag pair',
 'Tests check a few hand-made trees; order, filtering and duplicates depend on shape, mode and the two flags together.',
 ['src/mesh.py'], [('traverse/get_leaves', 'src/mesh.py:822'), ('Forest.traverse/get_leaves', 'src/mesh.py:1158'), ('nearest_ancestor', 'src/mesh.py:975')])
prop('F03', 'Flags define well-formed, persistent submeshes',
 'Marking and unmarking change exactly the named flag on exactly the nodes addressed (the node, its progeny, or its ancestors), and recording a flag labels exactly the nodes present at that moment. Rooting a flag yields the smallest flagged set that contains all roots and is closed under ancestors and siblings, and the well-rootedness and containment tests return precisely those facts. A recorded submesh keeps the same nodes and leaves no matter how the mesh is refined, recorded, labelled or balanced under other flags later.',
 ['histories', 'inputs'], 'every history of marking, recording, rooting and refinement with any mixture of flags',
 'Nested multi-resolution meshes are used over long histories; tests only take one or two steps with one flag.',
 ['src/mesh.py'], [('mark/unmark', 'src/mesh.py:495'), ('root_subtrees/subtrees_rooted', 'src/mesh.py:1243'), ('record', 'src/mesh.py:1418'), ('is_contained_in', 'src/mesh.py:1726')])
prop('F04', 'Flag-driven refinement and coarsening change exactly the requested nodes',
 'Refining a (sub)forest splits exactly the selected leaves of that (sub)forest once, labels the result with the new label (or extends the old one) so that it is again a well-rooted submesh, leaves all other flags alone and removes the refinement flag from the nodes it processed unless told not to. Coarsening deletes or unlabels exactly the children of the selected nodes, or labels the coarser submesh without touching the finer one, and clears the coarsening flag likewise. Coarsening the nodes a full refinement just split restores the previous leaves.',
 ['histories', 'inputs'], 'all combinations of subforest flag, selection flag, new label and clean-up option, in any order, on any forest',
 'The option space is a product of four switches times the history; tests exercise single combinations.',
 ['src/mesh.py'], [('Forest.refine', 'src/mesh.py:1651'), ('Tree.coarsen/Forest.coarsen', 'src/mesh.py:1011')])
prop('M01', 'Every (sub)mesh tiles the domain exactly',
 'At every stage of refinement the leaves of the mesh, and of each well-rooted submesh, cover the domain without gaps or overlap: cell areas or lengths are positive and sum to those of the domain, and each child occupies the quadrant (or sub-interval) of its parent that its position prescribes. Cell corners are in counter-clockwise order, and cells meeting at a point share one vertex object for it (apart from points identified by periodicity). This holds for intervals, rectangular grids and general quadrilateral meshes.',
 ['histories', 'inputs', 'configurations'], 'all root grids (1D, rectangular with any box and resolution, general quadrilaterals, periodic or not) and all refinement histories',
 'Tests look at one or two cells of one grid; tiling and vertex sharing depend on the order in which neighbours are split.',
 ['src/mesh.py'], [('QuadCell.split', 'src/mesh.py:3664'), ('HalfEdge.split', 'src/mesh.py:2279'), ('Interval.split', 'src/mesh.py:2934'), ('rectangular_grid', 'src/mesh.py:5594')])
prop('M02', 'Half-edge connectivity is a valid planar subdivision at all times',
 'In every cell of a two-dimensional mesh the half-edges form one closed cycle through next/previous that runs counter-clockwise along the corners and belongs to that cell. Two cells of the same level that share an edge have half-edges that are each other\'s twins with reversed end points, an edge on a non-periodic domain boundary never has a twin, and children of a half-edge subdivide it at its midpoint in order. Nothing of this depends on the order in which cells were split, or deleted and split again.',
 ['histories', 'configurations'], 'all root grids and all splitting orders',
 'Twin links are created lazily while splitting, so errors show only for certain orders of splitting neighbouring cells.',
 ['src/mesh.py'], [('HalfEdge.split', 'src/mesh.py:2279'), ('QuadCell.split', 'src/mesh.py:3664'), ('Mesh2D construction', 'src/mesh.py:7010'), ('determine_half_edges', 'src/mesh.py:5987')])
prop('M03', 'Periodic meshes identify opposite boundaries consistently',
 'On a mesh that is periodic in one or both coordinates, each edge on a periodic side is the twin of the edge displaced by exactly one period, at every refinement level and for every refinement order, and neighbour queries across the seam return the cell on the other side. Vertices on periodic sides are paired with exactly their displaced copies (all of them at corners), and a mesh reports periodicity exactly in the coordinates requested.',
 ['histories', 'configurations'], 'all resolutions, boxes, periodic coordinate sets (1D and 2D) and refinement histories',
 'Tests use a single small periodic mesh; the pairing is rebuilt on each split and depends on the order.',
 ['src/mesh.py'], [('make_periodic', 'src/mesh.py:6422'), ('pair_periodic_vertices', 'src/mesh.py:2117'), ('set_periodic_pair', 'src/mesh.py:1898')])
prop('M04', 'Balancing yields the least 2:1-balanced refinement',
 'After balancing, any two leaf cells of the (sub)mesh that share an edge (also across a periodic boundary) differ by at most one refinement level, and the balance test says so. The balanced (sub)mesh is the smallest one that refines the original and has that property: nothing is removed, no unnecessary cell is split, and balancing again changes nothing. The balance test answers correctly on unbalanced meshes as well.',
 ['histories', 'configurations'], 'all refinement patterns on all root grids, whole mesh or labelled submesh, periodic or not',
 'Ripple effects need chains of refinements; tests balance one corner-refined mesh.',
 ['src/mesh.py'], [('balance', 'src/mesh.py:7822'), ('is_balanced', 'src/mesh.py:7801')])
prop('M05', 'Neighbour queries return exactly the adjacent cells',
 'Asking a cell of a two-dimensional mesh for its neighbour across one of its edges returns the cell of the same level on the other side of that edge (also across a periodic boundary), if there is one and it carries the requested flag, and otherwise nothing. Asking for the neighbours around a corner returns exactly the other cells of the same level (carrying the flag) that are reached from the cell by crossing shared edges around that corner, each once. Asking an interval for its neighbour across an end point returns the leaf of the requested submesh that touches it there (or, level-wise, the interval of the same level), also across parents and periodic ends, and nothing at the end of the domain. The edge list of the root grid answers the same question for root cells.',
 ['histories', 'inputs'], 'all meshes (1D, 2D, periodic or not), all refinement histories, all cells, pivots and submesh flags',
 'Neighbour search walks parents, twins and children; correctness depends on the local refinement configuration.',
 ['src/mesh.py'], [('Cell.get_neighbors', 'src/mesh.py:3428'), ('Interval.get_neighbor', 'src/mesh.py:2752'), ('DCEL.get_neighbor', 'src/mesh.py')])
prop('M06', 'Points are located in exactly one leaf that contains them',
 'Every point of the domain handed to the point-binning of a mesh or cell is returned in exactly one bin, the bin is a leaf of the requested (sub)mesh, and the leaf geometrically contains the point; each index occurs exactly once. A cell, interval or edge reports containing a point exactly when the point lies in its closed region, and a point outside the domain is rejected.',
 ['inputs', 'histories'], 'all point sets (interior, on edges and vertices, duplicates), all meshes and submesh flags',
 'Tests bin a few interior points; boundary points, submeshes and points shared by several cells are where bins go missing or double.',
 ['src/mesh.py'], [('bin_points', 'src/mesh.py:3797'), ('Mesh bin_points', 'src/mesh.py:7747'), ('contains_points', 'src/mesh.py:3553')])
prop('M07', 'Boundary and region queries match the geometry',
 'The boundary of a (sub)mesh consists of exactly the leaf edges (end points in 1D) that lie on the non-periodic domain boundary, and its vertices are exactly their end points, each reported once. Marking a region labels exactly the cells, edges or vertices that satisfy the given predicate (strictly or partially, on the boundary or anywhere), and asking for the region returns exactly the labelled entities of the requested (sub)mesh. Refinement keeps the labels of cells and edges that were already marked.',
 ['histories', 'inputs'], 'all meshes, predicates over coordinates, entity types, options and submesh flags',
 'Options multiply (entity type x strictness x boundary x submesh); tests cover a few combinations on one mesh.',
 ['src/mesh.py'], [('get_boundary_segments', 'src/mesh.py:7150'), ('mark_region', 'src/mesh.py:7268'), ('get_region', 'src/mesh.py:7506')])
prop('M08', 'Reference maps and their derivatives are mutually inverse',
 'For every cell, interval and edge, mapping reference points to the cell and back returns the same points, corners go to corners and the map is the (bi)linear interpolation of the corners. The Jacobians returned for the two directions are the true derivatives at the mapped points and inverse to each other. The relative position and width reported for a descendant of a cell reproduce the place of its own reference map inside the ancestor.',
 ['inputs'], 'all cells of all meshes including non-rectangular quadrilaterals, all reference points, both directions',
 'Tests use a couple of fixed cells; general quadrilaterals use a Newton iteration.',
 ['src/mesh.py'], [('QuadCell.reference_map', 'src/mesh.py:3872'), ('Interval.reference_map', 'src/mesh.py:3131'), ('HalfEdge.reference_map', 'src/mesh.py:2537'), ('subcell_position', 'src/mesh.py:3726')])
prop('D01', 'Degrees of freedom: one number per node, shared exactly where continuous',
 'Distributing degrees of freedom gives every cell of the hierarchy a full set of numbers in which two cells use the same number exactly when the element is continuous and both refer to the same mesh node (the same physical point, up to periodic identification), while discontinuous elements never share between different leaves. The numbers in use are 0,...,n-1 without gaps and n equals the reported count. The vertex stored for each number is the physical position of that node.',
 ['histories', 'configurations'], 'all balanced meshes (1D/2D, periodic, general quadrilaterals), all element types, all refinement histories',
 'Sharing goes through neighbours, twins and children; whether it is complete depends on the whole refinement pattern.',
 ['src/fem.py'], [('distribute_dofs', 'src/fem.py:1178'), ('share_dofs_with_neighbors', 'src/fem.py'), ('share_dofs_with_children', 'src/fem.py'), ('set_dof_vertices', 'src/fem.py')])
prop('D02', 'Degrees of freedom of submeshes and regions are exactly the geometric ones',
 'The degrees of freedom reported for a submesh are exactly those of its leaves, and those reported for a marked region are exactly the ones attached to the selected vertices, edges or cells (interior or closed, on the boundary or not). The numbers stay the same whichever submesh is asked about, so a coarse space of continuous elements reuses the numbers of the coinciding fine-mesh nodes. A basis translates between global numbers and consecutive array indices by a bijection onto exactly these.',
 ['histories', 'inputs'], 'all nested recorded submeshes, entity types, region flags and options',
 'Tests enumerate dofs on one or two meshes with hard-coded numbers.',
 ['src/fem.py'], [('get_region_dofs', 'src/fem.py'), ('get_cell_dofs', 'src/fem.py'), ('Basis d2i/i2d', 'src/fem.py')])
prop('D03', 'Hanging-node constraints make the space continuous',
 'For every balanced (sub)mesh and continuous element, the hanging nodes reported are exactly the nodes of finer cells that lie on a coarser neighbour\'s edge without being nodes of that neighbour, and nothing else. Each is given supporting nodes on that edge with coefficients equal to the coarse basis functions there, summing to one, so that any constrained nodal vector defines a function that is continuous across all edges. Meshes without such nodes report none.',
 ['histories', 'configurations'], 'all balanced meshes and submeshes, Q1, Q2 and Q3 elements',
 'Which nodes hang and with what support depends on the local refinement pattern and orientation of the edge.',
 ['src/fem.py'], [('set_hanging_nodes', 'src/fem.py'), ('constraint_coefficients', 'src/fem.py')])
prop('E01', 'Shape functions are the nodal Lagrange basis with exact derivatives',
 'For every supported element the shape functions equal one at their own node and zero at the others, sum to one everywhere and reproduce every polynomial of the element\'s degree. First and second derivatives, on the reference cell and mapped to any rectangular cell or interval, are the exact derivatives of these functions in the requested variables.',
 ['inputs', 'configurations'], 'all element types in 1D and 2D, all evaluation points, all derivative requests, all cells',
 'Tests evaluate at a few points; an error in a single coefficient of a cubic tensor-product basis is invisible at most of them.',
 ['src/fem.py'], [('QuadFE.phi/dphi/d2phi', 'src/fem.py'), ('shape', 'src/fem.py'), ('parse_derivative_info', 'src/fem.py')])
prop('A01', 'Quadrature is exact to its stated order on every cell and edge',
 'A rule with n points per direction integrates every polynomial of degree at most 2n-1 in each variable exactly over the reference cell, and after mapping over any interval, edge or rectangular cell; its weights are positive and sum to the measure of the region and all its nodes lie inside. On general quadrilaterals the weights still sum to the area.',
 ['inputs', 'configurations'], 'all available orders, all cells and edges, all polynomials up to the degree',
 'Tests integrate one or two polynomials per rule on a fixed cell.',
 ['src/assembler.py'], [('GaussRule', 'src/assembler.py'), ('mapped_rule/map_rule', 'src/assembler.py')])
prop('A02', 'Assembled forms equal the exact integrals they denote',
 'Assembling bilinear, linear and constant forms gives, for every pair (or single, or none) of basis functions, the sum over exactly the requested cells, edges or vertices of the exact integral of kernel times (derivatives of) test and trial functions, whenever the quadrature is exact for it. Results are additive over the forms of a problem, independent between problems assembled together, and each sample of a sampled kernel gets its own correct matrix, vector or number. Contributions of marked regions or boundary parts include exactly those parts.',
 ['inputs', 'histories', 'configurations'], 'all meshes and submeshes, elements, derivative combinations, polynomial kernels, sample counts, region flags and combinations of forms in problems',
 'Tests assemble a few forms on uniform meshes and compare some entries.',
 ['src/assembler.py'], [('Form.eval', 'src/assembler.py'), ('Kernel.eval', 'src/assembler.py'), ('Assembler.assemble', 'src/assembler.py'), ('AssembledForm', 'src/assembler.py:3900')])
prop('A03', 'Eliminating boundary and hanging-node constraints solves the right problem',
 'When Dirichlet conditions and hanging nodes are registered before assembly, the solution returned takes exactly the prescribed values on the marked boundary, satisfies every hanging-node constraint, and satisfies the equations tested with all admissible functions. In particular, whenever the exact solution lies in the finite element space it is recovered at every node, on locally refined meshes, on submeshes and for every sample or problem index.',
 ['inputs', 'histories', 'configurations'], 'all balanced meshes and submeshes, continuous elements, Dirichlet parts and polynomial data',
 'Elimination re-routes matrix entries recursively; tests solve on one or two meshes and compare with themselves.',
 ['src/assembler.py'], [('AssembledForm.distribute', 'src/assembler.py'), ('add_dirichlet/add_hanging_nodes/solve', 'src/assembler.py')])
prop('A04', 'Constrained linear systems return the constrained solution',
 'Solving a linear system with Dirichlet and hanging-node constraints gives a vector that satisfies each constraint exactly and the original equations tested with all admissible vectors, for one or several right-hand sides, with or without factorisation, and when the same system is solved again with new right-hand sides. Constrained systems of symmetric problems stay symmetric.',
 ['inputs', 'histories', 'configurations'], 'all balanced meshes, constraint sets, right-hand sides and sequences of solver calls',
 'Tests solve a few fixed problems once; repeated use and mixed constraints are not covered.',
 ['src/solver.py'], [('LinearSystem.constrain_matrix/constrain_rhs/resolve_constraints', 'src/solver.py'), ('solve_system', 'src/solver.py')])
prop('N01', 'Nodal functions evaluate to their finite element interpolant everywhere',
 'Evaluating a nodal function or its derivatives at any set of points in the domain gives, for each sample, the finite element function with these nodal values on its own (sub)mesh, or its derivative; where that is discontinuous, at a point shared by several cells, the value from one of them (from the cell supplied, if any). Where a continuous function takes a nodal value the stored value is returned. differentiate() returns the derivative as a discontinuous function on the same (sub)mesh. Evaluation does not depend on the order, grouping or duplication of the points, on whether the cell is supplied, or on other submeshes; bivariate functions evaluate as the tensor contraction of both arguments.',
 ['inputs', 'histories', 'configurations'], 'all meshes and submeshes, element types, data and sample counts, point sets, derivatives',
 'Tests evaluate at a few points of small meshes, mostly with a function reproduced exactly by accident of symmetry.',
 ['src/function.py'], [('Nodal.eval', 'src/function.py:1779'), ('Nodal.set_data', 'src/function.py:1647'), ('differentiate', 'src/function.py:2322')])
prop('N02', 'Function samples, parameters and data updates affect exactly what they name',
 'Explicit and constant functions return one column per sample, row i belonging to point i, with each sample using its own rule and parameters. Adding samples, changing parameters or modifying nodal data changes exactly the named samples and degrees of freedom and leaves all others unchanged, and interpolating a function on a (sub)mesh reproduces it at every node and everywhere if it lies in the space. The outcome depends only on the final content, not on the history.',
 ['histories', 'inputs'], 'all sequences of update operations, all sample counts and numbers of variables',
 'Update operations are tested in isolation, at most one per test.',
 ['src/function.py'], [('Explicit', 'src/function.py:1346'), ('Nodal.modify_data/add_samples', 'src/function.py:1721'), ('Constant', 'src/function.py:2374'), ('Map.interpolant', 'src/function.py:313')])
prop('S01', 'Cholesky decompositions represent their matrix in every operation',
 'For every symmetric positive definite matrix, dense or sparse, the Cholesky decomposition reproduces the matrix, multiplies by it, solves with it, and multiplies and solves with its square root and the transposed square root consistently: applying the root after its transpose is multiplication by the matrix, and solving undoes multiplying. This holds for single vectors and blocks of columns alike. Singular positive semidefinite matrices are represented in the same way up to the small perturbation that makes them definite.',
 ['inputs'], 'all symmetric positive definite matrices (dense and sparse, with and without fill-reducing permutation) and right-hand sides',
 'Tests use random or diagonal matrices with one vector; permutations and block arguments matter.',
 ['src/spd.py'], [('CholeskyDecomposition', 'src/spd.py:212')])
prop('S02', 'Eigen-decompositions represent their matrix in every operation',
 'For every symmetric positive semidefinite matrix the eigen-decomposition reproduces the matrix, has decreasing eigenvalues with orthonormal eigenvectors, and multiplies, solves (in the pseudo-inverse sense once the eigenvalue floor is zero) and applies its square root and transposed square root consistently with the matrix. Rank, range and null space agree with the matrix, and a generalised decomposition solves the generalised problem.',
 ['inputs'], 'all symmetric positive (semi)definite matrices, mass matrices and right-hand sides',
 'Tests use one random matrix; degenerate matrices and repeated eigenvalues are not enumerated.',
 ['src/spd.py'], [('EigenDecomposition', 'src/spd.py:816')])
prop('R01', 'Gaussian fields sample and condition with the law they declare',
 'A sample of a Gaussian field driven by a given noise array equals the mean plus a square root of the declared covariance (or of the inverse precision) applied to it, for every mode, decomposition, column of means and number of samples, so that its covariance is the declared one; Karhunen-Loeve samples use exactly the eigendirections named. Conditioning on exact linear equations, in sample or field form and repeatedly, yields samples that satisfy them and whose mean and covariance are those of the exact conditional distribution.',
 ['inputs', 'configurations'], 'all means, covariance or precision matrices, constraint matrices and values, noise arrays and output modes',
 'Tests compare random samples visually or check a single constraint; the affine structure is only visible through exhaustive noise directions.',
 ['src/gmrf.py'], [('GaussianField.sample', 'src/gmrf.py:1272'), ('GaussianField.condition', 'src/gmrf.py:1379')])
prop('A05', 'Assembled integral operators are the double integrals they denote',
 'For an integral operator with a kernel of two variables, the projection form assembles exactly the double integrals of kernel times trial function times test function over all pairs of cells, edges or regions it names, and the interpolation form the integrals of the kernel at each node of the test space times the trial function, indexed by the right degrees of freedom, for every sample of the kernel, on submeshes, with derivatives, with different test and trial spaces, and added to ordinary bilinear forms of the same problem. Declaring a kernel symmetric changes nothing.',
 ['inputs', 'configurations'], 'all meshes, submeshes and regions, element types, kernels (explicit, constant, nodal, products) and numbers of samples',
 'Tests evaluate one kernel on one or three intervals; pairs of cells, regions, samples and spaces multiply.',
 ['src/assembler.py'], [('IIForm.eval', 'src/assembler.py:1478'), ('IPForm.eval', 'src/assembler.py:1600'), ('Assembler.assemble', 'src/assembler.py:2320'), ('Kernel.eval', 'src/assembler.py')])
prop('R02', 'Covariance functions and covariance operators are the declared ones',
 'Each named covariance function (constant, linear, Gaussian, exponential, Matern, rational) returns the value of its formula for every pair of points, standard deviation, length, metric tensor and period; it is symmetric and, except for the linear one, largest at distance zero. A covariance operator discretised on a finite element space by interpolation or projection has decreasing non-negative eigenvalues and eigenfunctions that are orthonormal in the mass inner product and solve the discrete Fredholm eigenvalue problem, and (by interpolation) its eigenexpansion reproduces the covariance function at every pair of nodes.',
 ['inputs', 'configurations'], 'all parameters, points, metrics and periodic boxes; all meshes, submeshes, element types and covariance functions',
 'Tests only plot samples or compare two lengths; wrong formulas still look like plausible covariances.',
 ['src/gmrf.py'], [('distance, constant .. rational', 'src/gmrf.py:173'), ('Covariance', 'src/gmrf.py:440')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
