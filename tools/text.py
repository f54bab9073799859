'''Text of the properties: one source for properties.jsonl, MANIFEST.json'''

A = 'xii/assembler/'
L = 'xii/linalg/'
M = 'xii/meshing/'


def P(id, title, statement, over, quant, why, files, mech, state=(), observe=(), level='exploration', note='', technique=None):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                state=state, observe=observe, level=level, note=note,
                technique=technique or 'deterministic simulation: seeded histories of operations with injected faults, '
                                       'checked against a reference model')


PROPS = [
P('C01', 'Trace forms assemble to the integrals they state, whatever came before',
  'In every history of assemblies, coefficient changes, discarded and recreated spaces, interrupted attempts and other forms, a '
  'form with traces of arguments or coefficients on a mesh of facets (or on a line that does not follow the facets) assembles to '
  'exactly the matrix, vector or number that its integrals define. This holds for traces from the cell on the side chosen by the '
  'normal, averages and jumps of both sides, traces limited to tagged parts of the facet mesh, and for every supported element, '
  'including those that live on facets only.',
  ['histories', 'fault_sequences', 'inputs'],
  'for all sequences of assemble/convert/update/recreate/interrupt operations over several worlds (meshes, marked facets, sides, '
  'normals, tags, elements) that share a process',
  'The tests assemble a handful of traces on one mesh each, once, in a fresh process; the reduction matrices are cached for the '
  'life of the process, so what matters is what ran before, and which of many mesh/element/side combinations it was.',
  [A+'trace_matrix.py', A+'trace_form.py', A+'trace_assembly.py', A+'nonconforming_trace_matrix.py', A+'reduced_assembler.py', A+'fem_eval.py'],
  [('memoized trace matrices', A+'trace_matrix.py'), ('peeling of one reduced terminal at a time', A+'reduced_assembler.py'),
   ('facet to cell maps', M+'embedded_mesh.py')],
  [('cache', 'trace matrices of the process by their key', A+'trace_matrix.py memoize_trace')],
  ['ii_assemble', 'ii_convert']),
P('C02', 'Averages around lines and flux averages assemble correctly in any history',
  'In every history of assemblies in one process, a form with averages of 3d arguments or coefficients over circles, disks, '
  'squares and their rims around a line, with averages of the normal flux through circles, or with point-wise traces to the line, '
  'assembles to the matrix, vector or number obtained by integrating these averages along the line. Radii may vary along the '
  'line, quadrature points outside of the domain contribute nothing, and averages by different shapes never get mixed up.',
  ['histories', 'fault_sequences', 'inputs'],
  'for all sequences of operations over several worlds (lines through cells or along edges, shapes, radii, elements)',
  'The tests average a few smooth functions over one shape at a time; averages are cached by shape object and line, and their '
  'values depend on the position of quadrature points relative to the cells.',
  [A+'average_matrix.py', A+'average_form.py', A+'average_shape.py', A+'flux_average_matrix.py', A+'average_assembly.py'],
  [('memoized average matrices', A+'average_matrix.py'), ('shapes', A+'average_shape.py')],
  [('cache', 'average matrices of the process', A+'average_matrix.py memoize_average')], ['ii_assemble', 'ii_convert']),
P('C03', 'Restriction, injection and transposed traces transfer functions exactly',
  'In every history of assemblies in one process, a form in which arguments or coefficients are restricted from a mesh to a mesh '
  'of some of its cells, injected from a coarse mesh to its refinement, or extended from a mesh of boundary facets to integrals '
  'over that boundary, assembles to the matrix, vector or number that its integrals define. Functions keep their values cell by '
  'cell, also where they are discontinuous, and meshes keep what they know about their parents.',
  ['histories', 'fault_sequences', 'inputs'],
  'for all sequences of operations over several worlds (marked cells, refinements, boundary parts, elements)',
  'The tests transfer a few functions once between two meshes; the transfer matrices are cached and depend on maps that the '
  'meshes collect while other operators use them.',
  [A+'restriction_matrix.py', A+'injection_matrix.py', A+'transpose_trace_matrix.py', A+'restriction_form.py', A+'injection_form.py',
   A+'transpose_trace_form.py', A+'transpose_trace_assembly.py'],
  [('parent maps of meshes', M+'embedded_mesh.py'), ('memoized matrices', A+'injection_matrix.py')],
  [('parent_entity_map', 'where the cells come from', M+'embedded_mesh.py')], ['ii_assemble', 'ii_convert']),
P('C04', 'Point values, means and patch averages enter forms with their exact value',
  'In every history of assemblies in one process, a form in which arguments or coefficients are replaced by their value or '
  'directional derivative at a vertex seen from a given cell, by their (weighted) integral over the mesh or its marked part, by their '
  'mean over a surface, or by averages over patches of cells, assembles to what the form states with these numbers. The same '
  'function may be used reduced and not reduced, in different ways, in one or several forms, without one use changing another.',
  ['histories', 'fault_sequences', 'inputs'],
  'for all sequences of operations over several worlds (points, tangents, weights, patches, elements)',
  'The tests evaluate one operator in one form; the operators are cached, and mark (copies of) the functions that they reduce.',
  [A+'point_trace_matrix.py', A+'gradient_point_trace_matrix.py', A+'mean_matrix.py', A+'surface_mean_matrix.py',
   A+'patch_average_matrix.py', A+'ufl_utils.py', A+'point_trace_form.py'],
  [('marked copies of functions', A+'ufl_utils.py'), ('memoized matrices', A+'surface_mean_matrix.py')],
  [], ['ii_assemble', 'ii_convert']),
P('C05', 'A form assembled again sees the current values of everything it refers to',
  'In every history of assemblies in one process, assembling a form again, or a form that shares pieces with those assembled before, '
  'yields the value for the current values of its coefficients, constants, expressions, weights of means, markers of cells of means, patches and traces and orientation of normals of one sided traces, '
  'whatever was assembled or cached before. This holds for values of functions and markers changed in place, for constants and parameters of expressions, and whether '
  'these enter the form directly or reduced (traced, averaged, restricted, injected, evaluated at points, averaged over patches).',
  ['histories', 'fault_sequences'],
  'for all interleavings of changes of values and assemblies of forms that share functions, constants, meshes and operators',
  'The tests assemble each form once; matrices of the operators are cached and functions are copied and marked, so stale values show '
  'only when values change between assemblies.',
  [A+'reduced_assembler.py', A+'trace_form.py', A+'trace_matrix.py', A+'average_form.py', A+'mean_matrix.py', A+'point_trace_form.py',
   A+'restriction_form.py', A+'injection_form.py', A+'ufl_utils.py'],
  [('reduced coefficients are assembled as matrix times vector', A+'trace_assembly.py'), ('memoized matrices', A+'trace_matrix.py')],
  [], ['ii_assemble', 'ii_convert']),
P('C06', 'Operators that differ in any parameter never share results',
  'In every history of assemblies in one process that uses many operators on the same meshes and elements, each form gets the '
  'result for the parameters of its own operator: side, normal and tags of a trace; shape, radius and degree of an average; point, '
  'cell and tangent of an evaluation; weight and part of the mesh of a mean; patches; source and target meshes and elements. It is so '
  'also when meshes, spaces and functions were discarded and new ones took their place in memory.',
  ['histories', 'inputs'],
  'for all sequences of assemblies with operators that share meshes and elements but differ in one or more parameters, with '
  'meshes discarded and recreated in between',
  'Each test uses one operator per process or one parameter; a key of a cache with a parameter missing gives wrong results only in the '
  'second assembly.',
  [A+'trace_matrix.py', A+'average_matrix.py', A+'average_shape.py', A+'flux_average_matrix.py', A+'point_trace_matrix.py',
   A+'gradient_point_trace_matrix.py', A+'mean_matrix.py', A+'surface_mean_matrix.py', A+'restriction_matrix.py', A+'injection_matrix.py',
   A+'transpose_trace_matrix.py', A+'patch_average_matrix.py', A+'trace_form.py'],
  [('memoize_* decorators and their keys', A+'trace_matrix.py'), ('ids of meshes in the keys', A+'injection_matrix.py')],
  [('cache', 'matrices of the process', A+'average_matrix.py')], ['ii_assemble', 'ii_convert']),
P('C07', 'An interrupted operation fails cleanly and leaves nothing behind',
  'Whenever an assembly, a conversion of its product or the building of an embedded or sub-mesh is interrupted at any point by an '
  'error, failed allocation, I/O error or a keyboard interrupt, the inputs (meshes, functions, forms) stay as they were, and every '
  'later operation in the same process, the same one repeated included, gives the same result as if the failed attempt had never '
  'been made. An error is reported to the caller and never turned into a wrong result.',
  ['fault_sequences', 'crash_points', 'histories'],
  'for all points of interruption (calls leaving the package) of all operations in a history, repeatedly',
  'No test makes anything fail; entries of caches and maps between meshes are filled in steps, any of which can be the last one.',
  [A+'reduced_assembler.py', A+'trace_matrix.py', A+'average_matrix.py', A+'injection_matrix.py', A+'trace_form.py', L+'convert.py',
   M+'embedded_mesh.py'],
  [('caches are filled only with finished products', A+'trace_matrix.py'), ('parent maps', M+'embedded_mesh.py')],
  [], ['ii_assemble', 'ii_convert', 'EmbeddedMesh', 'SubDomainMesh']),
P('C08', 'Assembly has no side effects and its results are independent objects',
  'Assembling or converting never changes the inputs: values of functions, constants, forms and their arguments, meshes, their '
  'markers and parent maps, and reduced (traced, averaged, ...) functions and their originals may be used in other forms. Products of '
  'assembly do not change later, whatever else is assembled, and changing one product in place (also one obtained by converting '
  'another) does not change any other product, nor later results.',
  ['histories', 'inputs'],
  'for all histories in which products are kept, compared later and overwritten while further forms are assembled',
  'The tests discard products at once; sharing with a cache shows only when a product is modified and the cached piece used again.',
  [A+'reduced_assembler.py', A+'ufl_utils.py', A+'trace_matrix.py', A+'trace_form.py', L+'convert.py', A+'average_form.py'],
  [('copies of marked functions', A+'trace_form.py'), ('products as lazy compositions with cached matrices', A+'trace_assembly.py')],
  [], ['ii_assemble', 'ii_convert']),
P('C09', 'Results do not depend on the order of independent work, sets or hashes',
  'The value of an assembled form is a function of the form and of the current values of its data only: it does not change '
  'with the order in which independent forms are assembled or meshes created, with garbage collection, with the order '
  'of terms of a form, with the iteration order of sets, or with the hash seed of the interpreter.',
  ['schedules', 'histories', 'configurations'],
  'for all orders of independent operations, iteration orders of sets and hash seeds of the interpreter',
  'A test run sees one order of everything; the code iterates over sets of cells, tags and integrals and over dictionaries keyed by '
  'objects.',
  [A+'reduced_assembler.py', A+'trace_matrix.py', A+'average_matrix.py', A+'restriction_matrix.py', A+'injection_matrix.py',
   A+'patch_average_matrix.py', A+'ufl_utils.py', M+'embedded_mesh.py'],
  [('loops over sets of cells and of integrals', A+'reduced_assembler.py')], [], ['ii_assemble', 'ii_convert']),
P('C19', 'Block forms hold and assemble exactly what was put into them',
  'A block form to which forms are added by their spaces or by position assembles block by block to the sum of what was put there; sums, '
  'permutations, adjoints of forms with any reductions and completion to a selfadjoint form are exact. None of these operations, '
  'interrupted or not, changes a form or a block form it was made from, and later changes of one block form are not seen by others.',
  ['histories', 'inputs', 'fault_sequences'],
  'for all block forms over two or more spaces (also repeated ones) with forms of all families, and histories of building and assembling',
  'The tests assemble no block forms; lost marks or swapped arguments give matrices of the right shape with wrong numbers.',
  [A+'block_form.py', A+'ufl_utils.py'],
  [('adding by spaces, adjoint by replacing of arguments', A+'block_form.py')], [], ['block_form', 'form_adjoint', 'make_selfadjoint', 'permute', 'ii_assemble']),
P('C20', 'Interleaved callers and callbacks that assemble get correct results',
  'Several callers in one process which assemble forms on the same or on different meshes, so that they proceed in any '
  'interleaving of their steps, and user callbacks (the radius of an averaging shape) which themselves assemble forms while they are '
  'evaluated, all get the same results as if each of them ran alone; a caller that fails in the middle does not affect the others.',
  ['schedules', 'fault_sequences', 'histories'],
  'for all interleavings (at calls that leave the package) of 2-3 assemblies on worlds shared or not, and all points of reentry',
  'The tests are sequential; caches, maps between meshes and marks on functions are shared by everything in the process.',
  [A+'reduced_assembler.py', A+'trace_matrix.py', A+'average_matrix.py', A+'average_shape.py', A+'injection_matrix.py', A+'trace_form.py',
   M+'embedded_mesh.py'],
  [('caches are filled after the matrix is complete', A+'trace_matrix.py')], [], ['ii_assemble', 'ii_convert']),
P('C10', 'Block operators convert to matrices that act as the operators do',
  'In every history of conversions, for every composition of matrices and numbers by sums, differences, products, transposes and '
  'scaling, and for every block matrix of such compositions (zeros, multiples of the identity, rectangular and repeated blocks '
  'included), conversion (to one matrix, block by block, nested, or by the iterative algorithm) gives the matrix with the same action '
  'for the current values. Its sizes are reported correctly, operands stay untouched, and later changes of operands or of '
  'other results do not change it.',
  ['inputs', 'histories', 'fault_sequences', 'schedules'],
  'for all expressions over matrices of compatible sizes, in histories with changes of matrices, interrupted and interleaved conversions',
  'The tests convert a few products; expressions are recursive and of unlimited variety, and sharing or in place addition only shows '
  'when operands are used again.',
  [L+'convert.py', L+'collapse_iter.py', L+'matrix_utils.py', L+'nest.py'],
  [('recursive collapse', L+'convert.py'), ('iterative collapse', L+'collapse_iter.py')],
  [], ['ii_convert', 'ii_collapse', 'monolithic', 'nest']),
P('C11', 'Boundary conditions give the constrained system, again and again',
  'Applying Dirichlet conditions to a block system (lists or dicts of conditions, plain or composed blocks, numbers for zero blocks, missing '
  'diagonals, no right hand side) gives the system whose solution has the current boundary values and satisfies the other equations, '
  'symmetric when the original one is and symmetry is requested. The inputs stay untouched. The function for the right hand side of '
  'later steps gives, for any later right hand sides and boundary values, what a new application of the conditions would give.',
  ['inputs', 'histories', 'fault_sequences', 'schedules'],
  'for all block systems and sets of conditions, in histories with changing boundary values and right hand sides, interruptions and interleaving',
  'The tests apply one set of conditions once; time stepping applies the same conditions many times with other values, and '
  'eliminated columns have to be remembered correctly.',
  [L+'bc_apply.py', L+'matrix_utils.py'],
  [('eliminated columns are kept for later right hand sides', L+'bc_apply.py')], [], ['apply_bc']),
P('C12', 'Regrouped, vectorized and preconditioning operators act as stated',
  'In every history, operators that merge, permute, select or nest components of block vectors, their transposes and sandwiches with other '
  'operators, operators applied to each component of a vector valued function, block diagonal operators and wrapped PETSc '
  'preconditioners give the result defined by the current values of their inputs and matrices. The results keep their values when '
  'other products are computed later, or other callers use the operators at the same time.',
  ['inputs', 'histories', 'fault_sequences', 'schedules'],
  'for all groupings, permutations and selections of components and all orders of products, reuse of temporary vectors and interleavings',
  'The tests apply such operators once to vectors that stay alive; temporary vectors come from pools and are used again.',
  [L+'block_utils.py', L+'function.py'],
  [('index sets of the groups', L+'block_utils.py'), ('pools of vectors of cbc.block', L+'block_utils.py')],
  [], ['ReductionOperator', 'SubSelectOperator', 'VectorizedOperator', 'BlockPC', 'block_diag_mat']),
P('C13', 'Block functions share their coefficients with all of their views',
  'In every history, a function of a block space, its components, its block vector, its PETSc and dolfin vectors and all such views taken '
  'earlier hold the same coefficients, whatever of them is written to (by values, interpolation of constants, expressions or functions, '
  'in place algebra, or a solver that solves into one of them). '
  'Functions that share vectors stay coupled, copies are not, and views outlive the function. Interrupted writes leave everything else as it was.',
  ['histories', 'inputs', 'fault_sequences'],
  'for all histories of creation, views, writes through any view, solves, collection of garbage and interruptions',
  'The tests read the components once after a solve; a view that is detached shows only with later writes through another view.',
  [L+'function.py', L+'nest.py', L+'block_utils.py', L+'matrix_utils.py'],
  [('nested vector made of the vectors of components', L+'function.py')], [], ['ii_Function', 'nest', 'as_petsc_nest']),
P('C14', 'Meshes of marked entities map exactly to all of their parent meshes',
  'A mesh made of marked entities (also for several tags, of cells or facets, of skeletons, mortars and overlaps) consists of exactly these '
  'entities, carries their tags, and its maps send each cell and vertex to the entity of the parent with the same points. This '
  'holds for every later embedding computed into further meshes, whatever their numbering and whatever was embedded, repeated, '
  'interrupted or interleaved before; meshes with no such embedding are refused. Interfaces of mortars list '
  'exactly the shared facets with the pair of subdomains.',
  ['inputs', 'histories', 'fault_sequences', 'schedules'],
  'for all meshes of lines, triangles and tetrahedra in any numbering, markings, sets and orders of tags, and histories of embeddings',
  'The tests embed a few structured meshes once; transfer operators trust these maps blindly, a wrong one gives wrong matrices only for '
  'numberings that structured meshes do not have.',
  [M+'embedded_mesh.py', M+'subdomain_mesh.py', M+'mortar_mesh.py', M+'make_mesh_cpp.py'],
  [('maps to parents by id of the parent', M+'embedded_mesh.py'), ('mesh of interfaces and their sides', M+'mortar_mesh.py')],
  [('parent_entity_map', 'cells and vertices of the parents', M+'embedded_mesh.py')],
  ['EmbeddedMesh', 'SubDomainMesh', 'OverlapMesh', 'mortar_meshes', 'build_embedding_map']),
P('C15', 'Markers survive transfer, refinement, union and branching of meshes',
  'Markers moved from a mesh to its submesh, or from submesh to parent, mark exactly the entities with the same points. Refinement, dual meshes, '
  'unions of many meshes and line meshes cover exactly the same set as their parts, with maps that tell where each cell is from; '
  'parts and inputs are left as they were. Each branch of a line network is a maximal path between its ends, and branches partition the cells.',
  ['inputs', 'histories', 'fault_sequences', 'schedules'],
  'for all meshes and networks in any numbering, markers, tags, numbers of refinements, orders of parts, and histories of operations',
  'The tests move one marker between two structured meshes; maps of unions and of branches are not tested.',
  [M+'transfer_markers.py', M+'refinement.py', M+'dual_mesh.py', M+'union_mesh.py', M+'line_mesh.py', M+'branching.py', M+'embedded_mesh.py'],
  [('composition of maps of the parts', M+'union_mesh.py'), ('walk along the cells', M+'branching.py')], [],
  ['transfer_markers', 'EmbeddedMesh.translate_markers', 'centroid_refine', 'DualMesh', 'UnionMesh', 'color_branches']),
P('C16', 'Derivatives of nonlinear forms of reduced functions are exact',
  'For residuals that are polynomials of functions, some of them reduced in several ways to the mesh of integration, the derivative in '
  'an unknown and the Jacobian of all residuals assemble to the exact derivative at the current values: after any history of updates of '
  'unknowns and parameters, whether the derivative is new or made earlier, and after interrupted or interleaved attempts. '
  'A residual that does not depend on the unknown has zero derivative, and residuals keep assembling to their own value.',
  ['histories', 'inputs', 'fault_sequences', 'schedules'],
  'for all families of reductions, residuals with one to three unknowns, powers, weights and tests, and histories of updates and derivatives',
  'The tests have no Jacobian of a nonlinear form; what is lost in the rewriting of arguments gives wrong numbers without an error.',
  ['xii/nonlin/jacobian.py', A+'reduced_assembler.py'],
  [('replacement of unknowns and their reductions', 'xii/nonlin/jacobian.py')], [], ['ii_derivative', 'block_jacobian', 'ii_assemble']),
P('C17', 'Block operators drive Krylov solvers to the solution of the block system',
  'A block operator and block preconditioner wrapped for PETSc, scipy, pyamg or cbc.block act (and act transposed, where offered) as the '
  'current operators on any vector, leaving inputs untouched. Solvers of symmetric, definite or general systems so set up reach '
  'the solution within the limit of iterations; with a given nullspace they give the solution that is orthogonal to it. This holds in every '
  'history of changes of matrices, interrupted and interleaved solves.',
  ['inputs', 'histories', 'fault_sequences', 'schedules'],
  'for all block systems (sizes, symmetry, definiteness, composed blocks), solvers that do not break down on them, and histories of use',
  'The tests wrap one system for one solver; nullspaces, rectangular operators and repeated use of a wrapper are not sampled.',
  [L+'block_utils.py', L+'krylov_api.py', L+'nest.py'],
  [('python context of the PETSc matrix', L+'block_utils.py')], [],
  ['ii_PETScOperator', 'ii_PETScPreconditioner', 'scipy_solve', 'pyamg_solve', 'cbc_solve']),
P('C18', 'Nullspace bases, projectors and matrices of abstract operators are exact',
  'A block nullspace built at once or vector by vector (of vectors, numbers, constants) is an orthonormal basis of the span of what was given, '
  'earlier vectors and inputs stay untouched, and orthogonalization removes exactly the part in it. Projectors, '
  'inner products and Riesz maps for the complement of a nullspace agree with their definition and their matrices. The matrix of an '
  'abstract operator acts as the operator whatever vectors of its pool were used for, in every history with interruptions and interleaving.',
  ['inputs', 'histories', 'fault_sequences', 'schedules'],
  'for all families of linearly independent vectors, spaces, operators, histories of growth and use',
  'The repository has no tests of these parts.',
  [L+'block_nullspace.py', L+'sherman_morrison.py', L+'fe_space_op.py'],
  [('columns computed one by one', L+'fe_space_op.py')], [], ['BlockNullspace', 'Projector', 'FESpaceOperator']),
P('C21', 'Normals, tangents and distances are those of the geometry',
  'Normals of embedded meshes are unit vectors perpendicular to each cell, pointing out of (or into) the side that was asked for, by point, by mesh, by '
  'marked cells or by the facet normal of the parent. Tangents of curves are unit vectors along the cells, continuous from the root '
  'on. Oriented facet normals agree with the orientation given, and centers of cells and facets, and distances between them, are '
  'those of the points, for every numbering of the mesh and history of uses.',
  ['inputs', 'histories', 'fault_sequences', 'schedules'],
  'for all meshes in any numbering, markings, orientations, and histories of operations',
  'The tests have normals of a few planes; orientation decides on which side traces are taken and with which sign they enter.',
  [M+'embedded_mesh.py', M+'dg_utils.py', M+'cell_centers.py'],
  [('orientation by the side of a point or cell', M+'embedded_mesh.py')], [],
  ['OuterNormal', 'InnerNormal', 'TangentCurve', 'OrientedFacetNormal', 'CentroidDistance']),
P('C22', 'Extensions have the values they extend',
  'The uniform extension of a function from a line to a surface or another line has, at every dof and in each of its components, '
  'the value the function has at a closest dof of that component. The harmonic extension is the trace of the solution of the '
  'problem in the bulk driven by the function. What is remembered between calls belongs to the spaces, kind of extension and data it was asked for; '
  'numbering of meshes, interruptions and other callers do not matter.',
  ['inputs', 'histories', 'fault_sequences', 'schedules'],
  'for all lines, targets, scalar, vector and tensor valued spaces, and histories of calls',
  'No stable test compares extension with values; vector valued extension did not work at all before the fix.',
  [M.replace('meshing', 'assembler')+'extension_matrix.py', M.replace('meshing', 'linalg')+'fe_space_op.py'],
  [('matrix of the closest dofs', M.replace('meshing', 'assembler')+'extension_matrix.py'), ('cache of the matrices', M.replace('meshing', 'assembler')+'extension_matrix.py')], [],
  ['uniform_extension_matrix', 'harmonic_extension_operator', 'extension_mat']),
]

NOT_APPLICABLE = []
