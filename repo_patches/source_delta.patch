From 33325ca858cfac2641a13ade095caead949ac26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 01/45] fix: non-conforming trace falls back instead of raising

The embedding map was also computed outside of the try block whose failure
selects the non-conforming trace.
---
 xii/assembler/trace_matrix.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index c659b10..6874d4f 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -89,7 +89,6 @@ def trace_mat_no_restrict(V, TV, trace_mesh=None, tag_data=None):
 
     trace_mesh_subdomains, tags = tag_data
     # Init/extract the mapping
-    get_entity_map(mesh, trace_mesh, trace_mesh_subdomains, tags)    
     try:
         assert get_entity_map(mesh, trace_mesh, trace_mesh_subdomains, tags)
     except (AssertionError, IndexError):
-- 
2.43.0


From c7034e032fac24787d38eb3ab49364d65f131a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 02/45] fix: 3d-1d trace on a line that is not made of edges
 evaluates in the cell of the point

A cell of such a line can pass through several cells of the 3d mesh. The
basis functions of the one with the midpoint were used for all of its dofs
i.e. polynomials were extrapolated.
---
 xii/assembler/average_matrix.py | 39 ++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/xii/assembler/average_matrix.py b/xii/assembler/average_matrix.py
index 55ff0ec..c13232f 100644
--- a/xii/assembler/average_matrix.py
+++ b/xii/assembler/average_matrix.py
@@ -273,15 +273,19 @@ def trace_3d1d_matrix(V, TV, reduced_mesh):
         mesh.init(1, 3)
         e2c = mesh.topology()(1, 3)
         # From 1d cell (by index)
-        get_cell3d = lambda c, d1d3=mapping, d3d3=e2c: d3d3(d1d3[c.index()])[0]
-    # Tree collision by midpoint
+        get_cell3d = lambda c, x, d1d3=mapping, d3d3=e2c: d3d3(d1d3[c.index()])[0]
+    # Tree collision. Line cell can pass through several 3d cells so the
+    # one with the point is needed. Points lost due to round off use midpoint
     else:
         tree = mesh.bounding_box_tree()
         limit = mesh.num_cells()
 
-        get_cell3d = lambda c, tree=tree, bound=limit: (
-            lambda index: index if index<bound else None
-        )(tree.compute_first_entity_collision(c.midpoint()))
+        def get_cell3d(c, x, tree=tree, bound=limit):
+            for point in (Point(*x), c.midpoint()):
+                index = tree.compute_first_entity_collision(point)
+                if index < bound:
+                    return index
+            return None
   
     TV_coordinates = TV.tabulate_dof_coordinates().reshape((TV.dim(), -1))
     TV_dm = TV.dofmap()
@@ -301,20 +305,19 @@ def trace_3d1d_matrix(V, TV, reduced_mesh):
             scalar_dofs = TV_dm.cell_dofs(line_cell.index())
             scalar_dofs_x = TV_coordinates[scalar_dofs]
 
-            # Let's get a 3d cell to use for getting the V values
-            # CG assumption allows taking any
-            tet_cell = get_cell3d(line_cell)
-            if tet_cell is None: continue
-            
-            Vcell = Cell(mesh, tet_cell)
-            vertex_coordinates = Vcell.get_vertex_coordinates()
-            cell_orientation = 0
-            # Columns are determined by V cell! I guess the sparsity
-            # could be improved if for x_dofs of TV only x_dofs of V
-            # were considered
-            column_indices = np.array(V_dm.cell_dofs(tet_cell), dtype='int32')
-
             for scalar_row, avg_point in zip(scalar_dofs, scalar_dofs_x):
+                # Let's get a 3d cell to use for getting the V values
+                # CG assumption allows taking any
+                tet_cell = get_cell3d(line_cell, avg_point)
+                if tet_cell is None: continue
+
+                Vcell = Cell(mesh, tet_cell)
+                vertex_coordinates = Vcell.get_vertex_coordinates()
+                cell_orientation = 0
+                # Columns are determined by V cell! I guess the sparsity
+                # could be improved if for x_dofs of TV only x_dofs of V
+                # were considered
+                column_indices = np.array(V_dm.cell_dofs(tet_cell), dtype='int32')
                 # 3d at point
                 basis_values[:] = Vel.evaluate_basis_all(avg_point, vertex_coordinates, cell_orientation)
                 # The thing now is that with data we can assign to several
-- 
2.43.0


From e654282197c8f3a5f47b8ec2dc527411dc1503be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:51 +0000
Subject: [PATCH 03/45] fix: trace by tags to a mesh with several markers finds
 facets of all the tags

When the embedding of the mesh (made from one mesh) into another mesh was
built for some tags then facets of other tags were never looked for.
Which tags are missing is decided by the cells found in the map.
---
 xii/assembler/trace_matrix.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index 6874d4f..1f196cb 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -519,39 +519,32 @@ def get_entity_map(mesh, trace_mesh, subdomains=None, tags=None):
 
     # There is map but we might be missing entry for the mesh
     if hasattr(trace_mesh, 'parent_entity_map'):
-        assert hasattr(trace_mesh, 'tagged_cells')
         # Check if we have the map embedding into mesh
         if mesh_id not in trace_mesh.parent_entity_map:
             info('\tMissing map for mesh %d' % mesh_id)
             parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, tags)
             trace_mesh.parent_entity_map[mesh_id] = parent_entity_map
         else:
-            needed_tags = trace_mesh.tagged_cells - tags
-            compute = True
+            # Cells of the map are those of the tags for which it was computed
+            mapped_cells = trace_mesh.parent_entity_map[mesh_id][trace_mesh.topology().dim()]
+            needed_tags = set()
+            if subdomains is not None:
+                needed_tags.update(tag for tag in tags
+                                   if any(cell not in mapped_cells for cell in subdomains.where_equal(tag)))
+
             if needed_tags:
-                tagged_trace_entities = set(np.hstack([subdomains.where_equal(tag) for tag in needed_tags]))
-                mapped_trace_entities = set(trace_mesh.parent_entity_map[mesh_id][subdomains.dim()].keys())
-                compute = tagged_trace_entities <= mapped_trace_entities
-                
-            if compute:
                 info('\tMissing map for tags %r of mesh %d' % (needed_tags, mesh_id))
-                parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, tags)
+                parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, needed_tags)
                 # Add new
                 for edim in trace_mesh.parent_entity_map[mesh_id]:
                     trace_mesh.parent_entity_map[mesh_id][edim].update(parent_entity_map[edim])
     # Compute from scratch and rememeber for future
     else:
-        print('Here')
         info('\tComputing embedding map for mesh %d' % mesh_id)
 
         parent_entity_map = build_embedding_map(trace_mesh, mesh, subdomains, tags)
         # If success we attach it to the mesh (to prevent future recomputing)
         trace_mesh.parent_entity_map = {mesh_id: parent_entity_map}
-
         # Just made a map for those tags so attach
-        if hasattr(trace_mesh, 'tagged_cells'):
-            assert not trace_mesh.tagged_cells
-            trace_mesh.tagged_cells.update(tags)
-        else:
-            trace_mesh.tagged_cells = tags
+        trace_mesh.tagged_cells = tags
     return True
-- 
2.43.0


From 074857a09dc03f710f98df7f40e9c2e9a8bd0fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 04/45] fix: average and jump traces

trace_mat_two_restrict did not take the tag data so that marking with
either restriction raised TypeError. It also mixed INSERT and ADD of
values (refused by PETSc) and its + side was the - side of
trace_mat_one_restrict.
---
 xii/assembler/trace_matrix.py | 146 +++++++++++++++++-----------------
 1 file changed, 75 insertions(+), 71 deletions(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index 1f196cb..9cf8bad 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -411,19 +411,34 @@ def trace_mat_one_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data
                                  csr=(mat.indptr, mat.indices, mat.data))
 
 
-def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
+def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None, tag_data=None):
     '''
-    Compute the trace values using avg/jump restriction. A + plus is the one 
-    for which the vector cell.midpoint - facet.midpoint agrees in orientation
-    with the normal on the facet.
+    Compute the trace values using avg/jump restriction. With +/- as defined
+    in trace_mat_one_restrict avg is (+ + -)/2 and jump is + - -. The facets
+    on the boundary have just one value.
     '''
+    assert normal.function_space().ufl_element().family() == 'Discontinuous Lagrange'
+    assert normal.function_space().ufl_element().degree() == 0
+
     mesh = V.mesh()
-    fdim = mesh.topology().dim() - 1
     
     if trace_mesh is None: trace_mesh = TV.mesh()
 
+    fdim = trace_mesh.topology().dim()
+    gdim = trace_mesh.geometry().dim()
+
+    # None means all
+    if tag_data is None:
+        try:
+            marking_function = trace_mesh.marking_function
+            tag_data = (marking_function, set(marking_function.array()))
+        except AttributeError:
+            tag_data = (MeshFunction('size_t', trace_mesh, trace_mesh.topology().dim(), 0),
+                        set((0, )))
+
+    trace_mesh_subdomains, tags = tag_data
     # Init/extract entity map
-    assert get_entity_map(mesh, trace_mesh)
+    assert get_entity_map(mesh, trace_mesh, trace_mesh_subdomains, tags)
     # We can get it
     mapping = trace_mesh.parent_entity_map[mesh.id()][fdim]  # Map cell of TV to cells of V
 
@@ -438,75 +453,64 @@ def trace_mat_two_restrict(V, TV, restriction, normal, trace_mesh=None):
     dmap = V.dofmap()
     V_basis_f = FEBasisFunction(V)
 
+    # Only look at tagged cells
+    trace_cells = list(itertools.chain(*[map(operator.methodcaller('index'),
+                                             SubsetIterator(trace_mesh_subdomains, tag))
+                                         for tag in tags]))
+
     # We define avg as sum(+, -)/2 and jump as sum(+, neg(-))
-    operator_pieces = {'avg': (lambda x: x/2, lambda x: x/2),
-                       'jump': (lambda x: x, lambda x: -x)}[restriction]
+    weights = {'avg': (0.5, 0.5), 'jump': (1., -1.)}[restriction]
+    
+    normal_values = normal.vector().get_local().reshape((-1, gdim))
 
-    gdim = mesh.geometry().dim()
-    # Rows
-    visited_dofs = [False]*TV.dim()
-    # Column values
-    dof_values = np.zeros(V_basis_f.elm.space_dimension(), dtype='double')
-    with petsc_serial_matrix(TV, V) as mat:
+    ndofs_elm, nbasis_elm = TV_dof.elm.space_dimension(), V_basis_f.elm.space_dimension()
+    local_values = np.zeros((nbasis_elm, ndofs_elm))
 
-        for trace_cell in range(trace_mesh.num_cells()):
-            TV_dof.cell = trace_cell
-            trace_dofs = Tdmap.cell_dofs(trace_cell)
+    needs_fill = np.ones(TV.dim(), dtype=bool)
+    rows, cols, values = [], [], []
+    for trace_cell in trace_cells:
+        TV_dof.cell = trace_cell
+        trace_dofs = Tdmap.cell_dofs(trace_cell)
 
-            # Figure out the dofs of V to use here
-            facet_cells = f2c(mapping[trace_cell])
-
-            assert 0 < len(facet_cells) < 3
-            # Ignore boundary facets
-            if len(facet_cells) == 1:
-                facet_cells = [facet_cells[0]]
-                modifiers = (lambda x: x, )  # Do nothing
-            # Search which cell has the right sign
-            else:
-                signs = [None, None]
-                # Order such that '+' is first
-                t_mp = Cell(trace_mesh, trace_cell).midpoint().array()[:gdim]
-                mp = Cell(mesh, facet_cells[0]).midpoint().array()[:gdim]
-
-                sign = '+' if np.inner(mp - t_mp, normal(t_mp)) > 0 else '-'
-                # Need to flip
-                if sign == '-':
-                    facet_cells = facet_cells[::-1]
-                # As requested
-                modifiers = operator_pieces
-
-            for local_T, dof_T in enumerate(trace_dofs):
-
-                if visited_dofs[dof_T]:
-                    continue
-                else:
-                    visited_dofs[dof_T] = True
-                    
-                # Define trace dof
-                TV_dof.dof = local_T
-                
-                # Two sweeps to set the values in the row
-                ADD_VALUES = False
-                for modify, cell in zip(modifiers, facet_cells):
-                    V_basis_f.cell = cell
-                    dofs = dmap.cell_dofs(cell)
-
-                    # Eval at V basis functions
-                    for local, dof in enumerate(dofs):
-                        # Set which basis foo
-                        V_basis_f.dof = local
-                        dof_values[local] = modify(TV_dof.eval(V_basis_f))
-                    # Can fill the matrix now
-                    col_indices = np.array(dofs, dtype='int32')
-
-                    if not ADD_VALUES:
-                        mat.setValues([dof_T], col_indices, dof_values, PETSc.InsertMode.INSERT_VALUES)
-                        ADD_VALUES = True
-                        #print 'setting', dof_T, col_indices, dof_values
-                    else:
-                        mat.setValues([dof_T], col_indices, dof_values, PETSc.InsertMode.ADD_VALUES)
-                        #print 'adding', dof_T, col_indices, dof_values
-    return mat
+        # Don't add duplicates
+        unseen = needs_fill[trace_dofs]
+        # For the future
+        needs_fill[trace_dofs[unseen]] = False
+
+        # Figure out the dofs of V to use here
+        facet_cells = f2c(mapping[trace_cell])
+        assert 0 < len(facet_cells) < 3
+
+        if len(facet_cells) == 1:
+            cell_weights = (1., )
+        else:
+            # Order such that '+' is first
+            t_mp = Cell(trace_mesh, trace_cell).midpoint().array()[:gdim]
+            mp = Cell(mesh, facet_cells[0]).midpoint().array()[:gdim]
+            if not np.inner(t_mp - mp, normal_values[trace_cell]) > 0:
+                facet_cells = facet_cells[::-1]
+            cell_weights = weights
+
+        # NOTE: csr sums the contributions of the two cells to shared dofs
+        for cell, weight in zip(facet_cells, cell_weights):
+            V_basis_f.cell = cell
+            # Columns for the rows
+            dofs = dmap.cell_dofs(cell)
+            for local, dof in enumerate(dofs):
+                # Set which basis foo
+                V_basis_f.dof = local
+                # Get all rows at once
+                local_values[local][:] = TV_dof.eval_dofs(V_basis_f)
+
+            rows.extend(np.tile(trace_dofs[unseen], nbasis_elm))
+            cols.extend(np.repeat(dofs, sum(unseen)))
+            values.extend(weight*local_values[:, unseen].ravel())
+
+    mat = csr_matrix((values, (rows, cols)), shape=(TV.dim(), V.dim()))
+
+    return PETSc.Mat().createAIJ(comm=PETSc.COMM_WORLD,
+                                 size=mat.shape,
+                                 csr=(mat.indptr, mat.indices, mat.data))
 
 
 def get_entity_map(mesh, trace_mesh, subdomains=None, tags=None):
-- 
2.43.0


From 43fcf96eaeb0cd77c1c0201672097cc0badbd28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 05/45] fix: transpose trace is the transpose of trace from the
 full mesh

The spaces were swapped in the call so that assembly always failed.
---
 xii/assembler/transpose_trace_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/transpose_trace_matrix.py b/xii/assembler/transpose_trace_matrix.py
index 77ffaa6..cf86c02 100644
--- a/xii/assembler/transpose_trace_matrix.py
+++ b/xii/assembler/transpose_trace_matrix.py
@@ -21,6 +21,7 @@ def memoize_trace(trace_mat):
 @memoize_trace
 def transpose_trace_mat(V, TV, reduced_mesh, tag_data):
     '''TODO'''
-    E = trace_mat_no_restrict(V, TV, trace_mesh=reduced_mesh)
+    # V lives on the trace mesh and TV on the full mesh
+    E = trace_mat_no_restrict(TV, V, trace_mesh=reduced_mesh)
     T = E.transpose()
     return df.PETScMatrix(T)
-- 
2.43.0


From e7a5d9a49439e0a5939a04ffead26748ca479629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 06/45] fix: point traces of gradient along different tangents
 are different

The tangent was not part of the cache key.
---
 xii/assembler/gradient_point_trace_matrix.py | 27 +++++++++++++-------
 xii/assembler/point_trace_matrix.py          |  3 +++
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/xii/assembler/gradient_point_trace_matrix.py b/xii/assembler/gradient_point_trace_matrix.py
index ec91bd8..103bdc1 100644
--- a/xii/assembler/gradient_point_trace_matrix.py
+++ b/xii/assembler/gradient_point_trace_matrix.py
@@ -8,8 +8,24 @@ import ufl_legacy as ufl
 from xii.assembler.point_trace_matrix import memoize_point_trace
 
 
-@memoize_point_trace
 def gradient_point_trace_mat(V, TV, trace_mesh, data):
+    '''Operator for the current value of the tangent'''
+    mesh, tangent = V.mesh(), data['tangent']
+
+    if isinstance(tangent, df.Constant):
+        tau = tangent.values()
+    elif isinstance(tangent, df.Function):
+        tau = tangent(Cell(mesh, data['cell']).midpoint().array()[:mesh.geometry().dim()])
+    else:
+        tau = tangent
+    # Hashable; used in the key of the cache
+    tau = tuple(np.asarray(tau, dtype=float).ravel())
+
+    return _gradient_point_trace_mat(V, TV, trace_mesh, dict(data, tangent=tau))
+
+
+@memoize_point_trace
+def _gradient_point_trace_mat(V, TV, trace_mesh, data):
     '''
     Let u in V; u = ck phi_k then u(x0) \in TV = ck phi_k(x0). So this 
     is a 1 by dim(V) matrix where the column values are phi_k(x0).
@@ -61,13 +77,6 @@ def gradient_point_trace_matrix_DG(V, TV, x0, cell, tangent):
     rows, cols, values = [], [], []
     for cell in cells:
 
-        if isinstance(tangent, df.Constant):
-            tau = tangent.values()
-        elif isinstance(tangent, df.Function):
-            tau = tangent(Cell(mesh, cell).midpoint().array()[:gdim])
-        else:
-            tau = tangent
-        
         # Cell for restriction
         Vcell = Cell(mesh, cell)
         vertex_coordinates = Vcell.get_vertex_coordinates()
@@ -92,7 +101,7 @@ def gradient_point_trace_matrix_DG(V, TV, x0, cell, tangent):
         cols.extend(all_dofs)
 
         # Now we need sign of the dof
-        values.extend(np.dot(basis_values, tau).flatten())
+        values.extend(np.dot(basis_values, tangent).flatten())
 
     mat = csr_matrix((values, (rows, cols)), shape=(TV.dim(), V.dim()))        
 
diff --git a/xii/assembler/point_trace_matrix.py b/xii/assembler/point_trace_matrix.py
index 5f312c8..4807a10 100644
--- a/xii/assembler/point_trace_matrix.py
+++ b/xii/assembler/point_trace_matrix.py
@@ -21,6 +21,9 @@ def memoize_point_trace(foo):
             key = key + tuple(data['cell'])
         except:
             key = key + (data['cell'], )            
+        # Gradients
+        if 'tangent' in data:
+            key = key + (data['tangent'], )
                
         if key not in cache:
             cache[key] = foo(V, TV, trace_mesh, data)
-- 
2.43.0


From 525a37e1668d57403fc5c3297d7c78cf2ac446d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 07/45] fix: injection by the parent map

The fallback used a matrix that was not made yet and its result could not be
used for linear forms. Method of injection is part of the cache key.
---
 xii/assembler/injection_matrix.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/xii/assembler/injection_matrix.py b/xii/assembler/injection_matrix.py
index 19f450a..aa7cebe 100644
--- a/xii/assembler/injection_matrix.py
+++ b/xii/assembler/injection_matrix.py
@@ -17,7 +17,7 @@ def memoize_inj(inj_mat):
     def cached_inj_mat(Vc, Vf, fine_mesh, data):
         key = ((Vc.ufl_element(), Vc.mesh().id()),
                (Vf.ufl_element(), Vf.mesh().id()),
-               fine_mesh.id())
+               fine_mesh.id(), data['not_nested_method'])
                
         if key not in cache:
             cache[key] = inj_mat(Vc, Vf, fine_mesh, data)
@@ -45,7 +45,7 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
     # Refine was used to create it
     keys, fine_to_coarse = list(zip(*list(fine_mesh.parent_entity_map[mesh_c.id()][tdim].items())))
     fine_to_coarse = np.array(fine_to_coarse, dtype='uintp')
-    fine_to_coarse[np.argsort(keys)] = fine_to_coarse
+    fine_to_coarse = fine_to_coarse[np.argsort(keys)]
         
     # The idea is to evaluate Vf's degrees of freedom at basis functions of Vc
     fdmap = Vf.dofmap()
@@ -84,8 +84,6 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
             ii.extend([dof]*len(coarse_dofs))
             jj.extend(coarse_dofs)
             vals.extend(row_values)
-            # Insert
-            mat.setValues([dof], coarse_dofs, row_values, PETSc.InsertMode.INSERT_VALUES)
 
     mat = csr_matrix((vals, (ii, jj)), shape=(Vf.dim(), Vc.dim()))        
 
@@ -95,4 +93,4 @@ def injection_matrix(Vc, Vf, fine_mesh, data):
 
     mat.assemble()
 
-    return mat
+    return PETScMatrix(mat)
-- 
2.43.0


From 4ee8703c7d624357459b4ab82be3a916c6dd2ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 08/45] fix: injection keeps the maps to other meshes that the
 fine mesh has

---
 xii/assembler/injection_form.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/injection_form.py b/xii/assembler/injection_form.py
index a2f504d..cbce901 100644
--- a/xii/assembler/injection_form.py
+++ b/xii/assembler/injection_form.py
@@ -44,7 +44,8 @@ def Injection(v, fmesh, not_nested_method='interpolate'):
                 cmap = fmesh.data().array('parent_cell', fmesh.topology().dim())
                 tdim = fmesh.topology().dim()
                 # NOTE: there is no vertex map
-                fmesh.parent_entity_map = {cmesh.id(): {tdim: dict(enumerate(cmap))}}
+                if not hasattr(fmesh, 'parent_entity_map'): fmesh.parent_entity_map = {}
+                fmesh.parent_entity_map[cmesh.id()] = {tdim: dict(enumerate(cmap))}
                 has_data = True
                 
             except RuntimeError:
-- 
2.43.0


From 4e23f266e6dc006f5bfc86e6dcedb684b15bf74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 09/45] fix: weighted mean follows the changes of the weight

Mean with weight was cached by the weight object. Update of its values, e.g. in
a time stepping loop, was not seen.
---
 xii/assembler/mean_matrix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/mean_matrix.py b/xii/assembler/mean_matrix.py
index 2153987..6de416d 100644
--- a/xii/assembler/mean_matrix.py
+++ b/xii/assembler/mean_matrix.py
@@ -15,9 +15,13 @@ def memoize_average(average_mat):
     '''Cached average'''
     cache = {}
     def cached_average_mat(V, TV, reduced_mesh, data):
+        # Weight can have different values next time
+        if data['weight'] is not None:
+            return average_mat(V, TV, reduced_mesh, data)
+
         key = ((V.ufl_element(), V.mesh().id()),
                (TV.ufl_element(), TV.mesh().id()),
-               data['weight'], data['measure'])
+               data['measure'])
 
         if key not in cache:
             cache[key] = average_mat(V, TV, reduced_mesh, data)
-- 
2.43.0


From 2e25fea48646b629da71fb49d7c488255600bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 10/45] fix: patch averages with coloring when several dofs
 share the patch

Only the first of the dofs was set, to a multiple of the average.
---
 xii/assembler/patch_average_matrix.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/xii/assembler/patch_average_matrix.py b/xii/assembler/patch_average_matrix.py
index 81994c0..54b0588 100644
--- a/xii/assembler/patch_average_matrix.py
+++ b/xii/assembler/patch_average_matrix.py
@@ -129,7 +129,7 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
     color_ids = vertex_f.vector().get_local()    
     # We will do the integration a group at a time
     groups = defaultdict(list)
-    for color in np.asarray(color_ids, dtype='uintp'):
+    for color in np.unique(np.asarray(color_ids, dtype='uintp')):
         if color not in coloring:
             continue
         group = coloring[color]
@@ -167,9 +167,9 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
             volumes[color] = patch_volume
             columns[color] = patch_dofs
 
-            d = np.abs(color_ids - color)
-            index = np.argmin(d)
-            assert d[index] < 1E-13
+            # Several dofs can have the patch
+            index, = np.where(np.abs(color_ids - color) < 1E-13)
+            assert len(index)
             
             rows[color] = index
         # Integrate over group!
@@ -179,9 +179,10 @@ def patch_avg_mat_coloring(V, TV, reduced_mesh, data):
         for color in group_colors:
             patch_values = v_dofs_arr[columns[color]]/volumes[color]
             # Update matrix
-            ii.extend(rows[color]*np.ones_like(columns[color]))
-            jj.extend(columns[color])
-            values.extend(patch_values)
+            for row in rows[color]:
+                ii.extend(row*np.ones_like(columns[color]))
+                jj.extend(columns[color])
+                values.extend(patch_values)
             
         # Reset for next round
         chi_array[:] = 0
-- 
2.43.0


From 5ace67ec4d74657c4b093b94c5b0e5434b6e7109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 11/45] fix: point trace of a function does not mark the
 function itself

---
 xii/assembler/ufl_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xii/assembler/ufl_utils.py b/xii/assembler/ufl_utils.py
index bd692b8..a672701 100644
--- a/xii/assembler/ufl_utils.py
+++ b/xii/assembler/ufl_utils.py
@@ -133,6 +133,10 @@ def reconstruct(f):
 
     if is_test_function(f):
         return df.TestFunction(f.function_space())
+
+    # A new function which shares the values
+    if isinstance(f, df.Function):
+        return df.Function(f.function_space(), f.vector())
     
     # Others?
     return f
-- 
2.43.0


From 1183c86c1e2605e3636e100966ab10fcf33cafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:38 +0000
Subject: [PATCH 12/45] fix: forms with both the reduced and not reduced
 argument on the same mesh

---
 xii/assembler/reduced_assembler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xii/assembler/reduced_assembler.py b/xii/assembler/reduced_assembler.py
index 833ead9..6679723 100644
--- a/xii/assembler/reduced_assembler.py
+++ b/xii/assembler/reduced_assembler.py
@@ -61,8 +61,9 @@ class ReducedFormAssembler(object):
     
         components = []
         for integral in form.integrals():
-            # Delegate to friend
-            if integral not in reduced_integrals:
+            # Delegate to friend. NOTE: reduced arguments compare equal to those
+            # that are not, so do the integrals and we ask for identity
+            if not any(integral is i for i in reduced_integrals):
                 components.append(xii.assembler.xii_assembly.assemble(Form([integral])))
                 continue
 
-- 
2.43.0


From 825602f414b0c6a261b9dc5feee6c78867f92573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 13/45] fix: convert composed transposes, numbers in sums and
 offdiagonal blocks

---
 xii/linalg/convert.py      | 34 +++++++++++++++++++++++++---------
 xii/linalg/matrix_utils.py | 11 +++++++++++
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index 5149ff8..573693a 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -1,6 +1,6 @@
 from xii.linalg.matrix_utils import (is_petsc_vec, is_petsc_mat, diagonal_matrix,
                                      is_number, as_petsc, petsc_serial_matrix,
-                                     zero_matrix)
+                                     zero_matrix, numbers_as_matrices)
 import xii
 
 from block.block_compose import block_mul, block_add, block_sub, block_transpose
@@ -45,11 +45,12 @@ def convert(bmat, algorithm='numpy'):
 
             if is_number(A):
                 # Diagonal matrices can be anything provided square
-                if i == j and row_sizes[i] == col_sizes[j]:
+                if row_sizes[i] == col_sizes[j] and (i == j or A != 0):
                     A = diagonal_matrix(row_sizes[i], A)
-                else:
-                    # Offdiagonal can only be zero
+                elif A == 0:
                     A = zero_matrix(row_sizes[i], col_sizes[j])
+                else:
+                    raise ValueError('Block (%d, %d) is %g and not square' % (i, j, A))
                 #else:
                 #    A = 0
             # The converted block
@@ -137,16 +138,17 @@ def collapse(bmat):
 
 def collapse_tr(bmat):
     '''to Transpose'''
-    # Base
-    # FIXME:!!!
     A = bmat.A
+    # Base
+    if is_number(A): return A
+
     if is_petsc_mat(A):
         A_ = as_petsc(A)
         C_ = PETSc.Mat()
         A_.transpose(C_)
         return PETScMatrix(C_)
     # Recurse
-    return collapse_tr(collapse(bmat))
+    return collapse_tr(block_transpose(collapse(A)))
 
 
 def collapse_add(bmat):
@@ -165,13 +167,21 @@ def collapse_add(bmat):
         # C = A + B
         C_.axpy(1., B_, PETSc.Mat.Structure.DIFFERENT)
         return PETScMatrix(C_)
+    # Nothing to recurse on
+    if is_number(A) or is_number(B):
+        A, B = collapse(A), collapse(B)
+        if is_number(A) and is_number(B): return A + B
+
+        return collapse_add(block_add(*numbers_as_matrices(A, B)))
     # Recurse
-    return collapse_add(collapse(A) + collapse(B))
+    return collapse_add(block_add(collapse(A), collapse(B)))
 
 
 def collapse_sub(bmat):
     '''A - B to single matrix'''
     A, B = bmat.A, bmat.B
+    if is_petsc_mat(A) and is_number(B) and abs(B) < 1E-14:
+        return A
     # Base case
     if is_petsc_mat(A) and is_petsc_mat(B):
         A_ = as_petsc(A)
@@ -181,8 +191,14 @@ def collapse_sub(bmat):
         # C = A - B
         C_.axpy(-1., B_, PETSc.Mat.Structure.DIFFERENT)
         return PETScMatrix(C_)
+    # Nothing to recurse on
+    if is_number(A) or is_number(B):
+        A, B = collapse(A), collapse(B)
+        if is_number(A) and is_number(B): return A - B
+
+        return collapse_sub(block_sub(*numbers_as_matrices(A, B)))
     # Recurse
-    return collapse_sub(collapse(A) - collapse(B))
+    return collapse_sub(block_sub(collapse(A), collapse(B)))
 
 
 def collapse_mul(bmat):
diff --git a/xii/linalg/matrix_utils.py b/xii/linalg/matrix_utils.py
index 6051d35..4dcbbfc 100644
--- a/xii/linalg/matrix_utils.py
+++ b/xii/linalg/matrix_utils.py
@@ -101,6 +101,17 @@ def zero_matrix(nrows, ncols):
     return PETScMatrix(A)
 
 
+def numbers_as_matrices(A, B):
+    '''In A + B, A - B the number is that multiple of identity (see its action)'''
+    if is_number(A):
+        B, A = numbers_as_matrices(B, A)
+    elif is_number(B):
+        nrows, ncols = A.size(0), A.size(1)
+        assert B == 0 or nrows == ncols, (B, nrows, ncols)
+        B = diagonal_matrix(nrows, B) if nrows == ncols else zero_matrix(nrows, ncols)
+    return A, B
+
+
 def row_matrix(rows):
     '''Short and fat matrix'''
     ncols, = set(row.size() for row in rows)
-- 
2.43.0


From 01960b2f23c97dce8c72c16dc10422720596b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 14/45] fix: get_dims of products with numbers, sizes of block
 vectors

---
 xii/linalg/convert.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index 573693a..cb244bd 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -285,7 +285,7 @@ def block_mat_to_petsc(bmat):
         for i in range(matrix.size(0)):
             yield matrix.getrow(i)
 
-    row_sizes, col_sizes = get_sizes(bmat)
+    row_sizes, col_sizes = bmat_sizes(bmat)
     row_offsets = np.cumsum([0] + list(row_sizes))
     col_offsets = np.cumsum([0] + list(col_sizes))
 
@@ -322,25 +322,15 @@ def get_dims(thing):
     # Now let's handdle block stuff
     # Multiplication
     if isinstance(thing, block_mul):
-        A, B = thing.chain[0], thing.chain[1:]
-
-        dims_A, dims_B = get_dims(A), get_dims(B[0])
         # A number does not change
-        if dims_A is None:
-            return dims_B
-        if dims_B is None:
-            return dims_A
+        dims = [dims for dims in map(get_dims, thing.chain) if dims is not None]
+        if not dims:
+            return None
         # Otherwise, consistency
-        if len(B) == 1:
-            assert len(dims_A) == len(dims_B) 
-            assert dims_A[1] == dims_B[0], (dims_A, dims_B) 
-            return (dims_A[0], dims_B[1])
-        else:
-            dims_B = get_dims(reduce(operator.mul, B))
-            
-            assert len(dims_A) == len(dims_B) 
+        for dims_A, dims_B in zip(dims[:-1], dims[1:]):
+            assert len(dims_A) == len(dims_B)
             assert dims_A[1] == dims_B[0], (dims_A, dims_B)
-            return (dims_A[0], dims_B[1])
+        return (dims[0][0], dims[-1][1])
     # +, -
     if isinstance(thing, (block_add, block_sub)):
         A, B = thing.A, thing.B
@@ -375,7 +365,7 @@ def get_dims(thing):
 def bmat_sizes(bmat):
     '''Return a tuple which represents sizes of (blocks of) bmat'''
     if isinstance(bmat, block_vec):
-        return tuple(map(get_dims, block_vec.blocks))
+        return tuple(map(get_dims, bmat.blocks))
 
     if isinstance(bmat, block_mat):
         vec = bmat.create_vec(0)
-- 
2.43.0


From bc086cb9e15e9b9fb97d80a529088a8b22798a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 15/45] fix: numpy scalars are numbers in block operators

---
 xii/linalg/matrix_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xii/linalg/matrix_utils.py b/xii/linalg/matrix_utils.py
index 4dcbbfc..44e93e3 100644
--- a/xii/linalg/matrix_utils.py
+++ b/xii/linalg/matrix_utils.py
@@ -19,7 +19,7 @@ def is_petsc_mat(A):
 
 def is_number(i):
     '''Check number type'''
-    return isinstance(i, (float, int))
+    return isinstance(i, (float, int, np.floating, np.integer))
 
 
 def as_petsc(A):
@@ -45,7 +45,7 @@ def transpose_matrix(A):
 
 def diagonal_matrix(size, A):
     '''Dolfin A*I serial only'''
-    if isinstance(A, (int, float)):
+    if is_number(A):
         d = PETSc.Vec().createWithArray(A*np.ones(size))
     else:
         d = as_backend_type(A).vec()
-- 
2.43.0


From 4fef0fcda9a3b85f3d31545cfe1de93a4aaa3b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 16/45] fix: collapse_iter with repeated operators and numbers
 in sums

---
 xii/linalg/collapse_iter.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/xii/linalg/collapse_iter.py b/xii/linalg/collapse_iter.py
index 176621c..bcc15c9 100644
--- a/xii/linalg/collapse_iter.py
+++ b/xii/linalg/collapse_iter.py
@@ -1,4 +1,5 @@
 from collections import defaultdict
+from copy import copy
 from functools import reduce
 from itertools import chain
 import operator
@@ -9,7 +10,7 @@ import numpy as np
 from block import (block_add, block_sub, block_mul, block_transpose, block_mat,
                    block_vec)
 from xii.linalg.matrix_utils import (is_petsc_vec, is_petsc_mat, is_number,
-                                     as_petsc)
+                                     as_petsc, numbers_as_matrices)
 import xii.linalg.convert as xii_convert 
 from petsc4py import PETSc
 
@@ -73,6 +74,9 @@ def expr2graph(expr):
                 terminal_labels[child].append(child_node)
                 terminal_counter += 1
             else:
+                # The same operator can occur in the expression several times,
+                # each occurrence is a node
+                child = copy(child)
                 subexpr.append(child)
                 child_node = child
             # ... index to edge
@@ -195,12 +199,16 @@ def collapse_add(A, B):
         # C = A + B
         C_.axpy(1., B_, PETSc.Mat.Structure.DIFFERENT)
         return df.PETScMatrix(C_)
-    # Otherwise
-    raise ValueError
+    # Number
+    if is_number(A) and is_number(B):
+        return A + B
+    return collapse_add(*numbers_as_matrices(A, B))
 
 
 def collapse_sub(A, B):
     '''A - B to single matrix'''
+    if is_petsc_mat(A) and is_number(B) and abs(B) < 1E-14:
+        return A
     # Base case
     if is_petsc_mat(A) and is_petsc_mat(B):
         A_ = as_petsc(A)
@@ -210,8 +218,10 @@ def collapse_sub(A, B):
         # C = A - B
         C_.axpy(-1., B_, PETSc.Mat.Structure.DIFFERENT)
         return df.PETScMatrix(C_)
-    # Recurse
-    raise ValueError
+    # Number
+    if is_number(A) and is_number(B):
+        return A - B
+    return collapse_sub(*numbers_as_matrices(A, B))
 
 
 def collapse_mul(A, B):
@@ -238,7 +248,9 @@ def collapse_mul(A, B):
         C_ = B_.copy()
         C_.scale(A)
         return df.PETScMatrix(C_)
-    
+
+    if is_number(A) and is_number(B):
+        return A*B
     # Otherwise
     raise ValueError
 
@@ -261,7 +273,8 @@ def collapse(expr):
             # FIXME: this is a mock up
             # terminal = collapse_tree(sub_expr)
             mat = collapse_tree(tree, terminals)
-            node = str(mat)
+            # NOTE: several trees can collapse to the same thing
+            node = f'{mat}_{len(terminals)}'
             # In graph we put name ...
             graph, done = replace_tree(graph, tree, node)
             # ... and we have a lookup
-- 
2.43.0


From e16d8a98436f0daa8cf798a2d4a9b942d1065ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 17/45] fix: convert products of composed operators, nest keeps
 shape of zero rows

---
 xii/linalg/convert.py | 10 +++++++---
 xii/linalg/nest.py    | 13 ++++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/xii/linalg/convert.py b/xii/linalg/convert.py
index cb244bd..77f868c 100644
--- a/xii/linalg/convert.py
+++ b/xii/linalg/convert.py
@@ -12,7 +12,6 @@ from scipy.sparse import csr_matrix, vstack as sp_vstack
 from petsc4py import PETSc
 import numpy as np
 import itertools
-import operator
 from functools import reduce
 
 COMM = PETSc.COMM_WORLD
@@ -231,10 +230,15 @@ def collapse_mul(bmat):
             return PETScMatrix(C_)
         # Some compositions
         else:
-            return collapse(collapse(A)*collapse(B))
+            A, B = collapse(A), collapse(B)
+            # Nothing to recurse on
+            if is_petsc_vec(B) or (is_number(A) and is_number(B)):
+                return A*B
+
+            return collapse_mul(block_mul(A, B))
     # Recurse
     else:
-        return collapse_mul(collapse(A)*collapse(reduce(operator.mul, B)))                                    
+        return collapse_mul(block_mul(collapse(A), collapse(reduce(block_mul, B))))
 
     
 # Conversion via numpy
diff --git a/xii/linalg/nest.py b/xii/linalg/nest.py
index dfdd1b9..2422249 100644
--- a/xii/linalg/nest.py
+++ b/xii/linalg/nest.py
@@ -2,7 +2,7 @@ import sys, petsc4py
 petsc4py.init(sys.argv)
 from petsc4py import PETSc
 
-from xii.linalg.matrix_utils import as_petsc, diagonal_matrix
+from xii.linalg.matrix_utils import as_petsc, diagonal_matrix, is_number
 from xii.linalg.convert import convert
 from block.algebraic.petsc import LU, SUPERLU_LU, AMG, Elasticity
 from block.algebraic.petsc.precond import precond
@@ -139,19 +139,26 @@ def nest(tensor, elim_zeros_tol=1E-15, W=None):
 
         nrows, ncols = tensor.blocks.shape
         A = [[None for j in range(ncols)] for i in range(nrows)]
+        eliminated = []
         for i in range(nrows):
             for j in range(ncols):
 
-                if isinstance(tensor[i][j], (int, float)):
-                    # assert i != j, (i, j, tensor[i][j])
+                if is_number(tensor[i][j]):
+                    # None stands for zero
+                    assert tensor[i][j] == 0, (i, j, tensor[i][j])
                     block = None
                 else:
                     # Optimize for zeros and insert None                       
                     block = as_petsc(convert(tensor[i][j]))
                     # But only for the offdiagonals (to keep shape info)
                     if i != j and block.norm(2) < elim_zeros_tol:
+                        eliminated.append((i, j, block))
                         block = None
                 A[i][j] = block
+        # Some row/column might now have only None (and thus no shape info)
+        for i, j, block in eliminated:
+            if all(Aij is None for Aij in A[i]) or all(Ai[j] is None for Ai in A):
+                A[i][j] = block
 
         mat = PETSc.Mat().createNest(A)
         mat.assemble()
-- 
2.43.0


From f2c846c6109ff5adac5d47e9ce8a0614573eb1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 18/45] fix: apply_bc with dicts, plain matrices, missing
 diagonal and apply_b with other diagonal values

---
 xii/linalg/bc_apply.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/xii/linalg/bc_apply.py b/xii/linalg/bc_apply.py
index ed85140..be25ad8 100644
--- a/xii/linalg/bc_apply.py
+++ b/xii/linalg/bc_apply.py
@@ -4,6 +4,7 @@ from dolfin import *
 
 from xii.linalg.convert import convert 
 from xii.linalg.convert import numpy_to_petsc
+from xii.linalg.matrix_utils import diagonal_matrix
 from scipy.sparse import csr_matrix
 from block import block_mat, block_vec
 from block.block_bc import block_rhs_bc
@@ -17,7 +18,7 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     '''
     # Specs of do nothing
     if bcs is None or not bcs or (isinstance(bcs, list) and not any(bc for bc in bcs)):
-        return A, b
+        return (A, b, lambda bb: bb) if return_apply_b else (A, b)
     
     # Allow for A, b be simple matrices. To proceed we wrap them as
     # block objects
@@ -27,7 +28,9 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
         has_wrapped_A = True
 
     if b is None:
-        b = A.create_vec()
+        b = A.create_vec(dim=0)
+        # NOTE: the vectors can come from a pool
+        [bi.zero() for bi in b]
     
     if not isinstance(b, block_vec):
         assert has_wrapped_A
@@ -47,13 +50,16 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     bcs_ = []
     for bc in bcs:
         assert isinstance(bc, (DirichletBC, list, dict)), (type(bc), )
-        if isinstance(bc, DirichletBC):
-            bcs_.append([bc])
+        if isinstance(bc, (DirichletBC, dict)):
+            bcs_.append([bc] if bc else [])
         else:
             bcs_.append(bc)
     bcs = bcs_
 
-    if not bcs or not any(bcs): return A, b
+    if not any(bcs):
+        if has_wrapped_A: A, b = A[0][0], b[0]
+
+        return (A, b, lambda bb: bb) if return_apply_b else (A, b)
 
     # Obtain a monolithic matrix
     AA, bb = list(map(convert, (A, b)))
@@ -84,8 +90,8 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
             rows.extend(shift + np.array(list(bc.keys()), dtype='int32'))
             x_values.extend(list(bc.values()))
             
-    rows = np.hstack(rows)
-    x_values = np.array(x_values)
+    rows = np.array(rows, dtype='int32')
+    x_values = np.array(x_values, dtype=float)
 
     x = bb.copy()
     x.zeroEntries()
@@ -97,15 +103,18 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
         blocks.append(PETSc.IS().createStride(last-first, first, 1))
 
         
-    if return_apply_b and symmetric:
+    if return_apply_b:
         # We don't want to reassemble system and apply bcs (when they are 
         # updated) to the (new) matrix and the rhs. Matrix is expensive 
         # AND the change of bcs only effects the rhs. So what we build
         # here is a function which applies updated bcs only to rhs as
         # if by assemble_system (i.e. in a symmetric way)
         def apply_b(bb, AA=AA.copy(), dofs=rows, bcs=bcs, blocks=blocks):
+            if not isinstance(bb, block_vec):
+                apply_b(block_vec([bb]))
+                return bb
             # Pick up the updated values
-            values = np.array(sum((list(bc.get_boundary_values().values()) if isinstance(bc, DirichletBC) else []
+            values = np.array(sum((list((bc.get_boundary_values() if isinstance(bc, DirichletBC) else bc).values())
                                    for bcs_sub in bcs for bc in bcs_sub),
                                   []))
             # Taken from cbc.block
@@ -119,8 +128,8 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
             
             b = convert(bb)  # We cond't get view here ...
             b_vec = as_backend_type(b).vec()
-            b_vec.axpy(-1, Ac)  # Elliminate
-            b_vec.setValues(dofs, values)
+            symmetric and b_vec.axpy(-1, Ac)  # Elliminate
+            b_vec.setValues(dofs, diag_val*values)
             b_vec.assemble()
 
             bb *= 0  # ... so copy
@@ -128,6 +137,11 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
                 
             return bb
 
+    # NOTE: PETSc needs to have all the diagonal entries (add zeros)
+    if len(rows):
+        AA.axpy(1., as_backend_type(diagonal_matrix(AA.size[0], 0.)).mat(),
+                PETSc.Mat.Structure.DIFFERENT)
+
     # Apply to monolithic
     if symmetric:
         len(rows) and AA.zeroRowsColumns(rows, diag=diag_val, x=x, b=bb)
@@ -137,7 +151,7 @@ def apply_bc(A, b, bcs, diag_val=1., symmetric=True, return_apply_b=False):
     b = as_block(bb, blocks)
     A = as_block(AA, blocks)
     
-    if has_wrapped_A: return A[0][0], b[0]
+    if has_wrapped_A: A, b = A[0][0], b[0]
 
     if return_apply_b:
         return A, b, apply_b
-- 
2.43.0


From dbd4cd6e95eed920fd3ab35d3c830aefd80812c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 19/45] fix: regrouping operators return vectors that are not
 overwritten, accept tuples of offsets

---
 xii/linalg/block_utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index 853d7ff..07b22d1 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -341,7 +341,9 @@ class RearangeOperator(block_base):
             if len(indices) == 1:
                 reshaped.append(b.blocks[indices[0]])
             else:
-                reshaped.append(PETScVector(as_petsc_nest(block_vec([b.blocks[idx] for idx in indices]))))
+                # NOTE: the nest only refers to PETSc vectors of its blocks which
+                # might belong to a pool. Copies are safe from being reused
+                reshaped.append(PETScVector(as_petsc_nest(block_vec([b.blocks[idx].copy() for idx in indices]))))
         ans = block_vec(reshaped) if len(reshaped) > 1 else reshaped[0]
         return ans
 
@@ -359,7 +361,12 @@ class RearangeOperator(block_base):
                 unpacked[blocks[0]] = bi
             else:
                 x_petsc = as_backend_type(bi).vec()
-                subvecs = [PETScVector(x_petsc.getSubVector(dofs)) for dofs in block_dofs]
+                # The sub vectors can share memory with x so they are copied
+                subvecs = []
+                for dofs in block_dofs:
+                    subvec = x_petsc.getSubVector(dofs)
+                    subvecs.append(PETScVector(subvec.copy()))
+                    x_petsc.restoreSubVector(dofs, subvec)
                 for j, subvec in zip(blocks, subvecs):
                     unpacked[j] = subvec
         ans = block_vec(unpacked)
@@ -378,7 +385,7 @@ class ReductionOperator(RearangeOperator):
         assert len(W) == offsets[-1]
         assert is_increasing(offsets)
         
-        offsets = [0] + offsets
+        offsets = [0] + list(offsets)
         mapping = tuple(tuple(range(f, l)) for f, l in zip(offsets[:-1], offsets[1:]))
         RearangeOperator.__init__(self, mapping, W)
         self.offsets = offsets
@@ -388,7 +395,7 @@ class RegroupOperator(block_base):
     def __init__(self, offsets, W):
         assert len(W) == offsets[-1]
         assert is_increasing(offsets)
-        self.offsets = [0] + offsets
+        self.offsets = [0] + list(offsets)
 
     def matvec(self, b):
         '''Reduce'''
-- 
2.43.0


From c5577b11dcac240c63846ef16aba468a8107d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 20/45] fix: vectorized operator over list of spaces, no array
 shared by its calls

---
 xii/linalg/block_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index 07b22d1..88b05c6 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -197,7 +197,7 @@ class VectorizedOperator(block_base):
             size,  = set(Wi.dim() for Wi in W)
 
             # Matches A
-            n, n = get_dims(bmat)
+            n, m = get_dims(bmat)
             assert n == m == size
 
             A = block_diag_mat([bmat]*len(W))
@@ -220,10 +220,10 @@ class VectorizedOperator(block_base):
             # Will need index sets for extracting components in Vj
             index_set = [PETSc.IS().createGeneral(np.fromiter(W.sub(j).dofmap().dofs(), dtype='int32'))
                          for j in range(nsubs)]
-            # Prealoc one working array
-            work = Function(W).vector().get_local()
             
-            def __matvec__(self, b, A=bmat, indices=index_set, work=work):
+            def __matvec__(self, b, A=bmat, indices=index_set, size=W.dim()):
+                # One array for each call
+                work = np.zeros(size)
                 for index in indices:
                     # Exact apply assign
                     bj = PETScVector(as_backend_type(b).vec().getSubVector(index))
-- 
2.43.0


From 99a130baadc92c5bd9ed09930f973b5999cf34ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 21/45] fix: interpolating a block function keeps its vectors
 wired

---
 xii/linalg/function.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xii/linalg/function.py b/xii/linalg/function.py
index 34474d3..9b957bb 100644
--- a/xii/linalg/function.py
+++ b/xii/linalg/function.py
@@ -12,6 +12,7 @@ def as_petsc_nest(bvec):
     assert isinstance(bvec, block_vec)
     nest = [as_backend_type(v).vec() for v in bvec]
     vec = PETSc.Vec().createNest(nest)
+    vec.setUp()   # Otherwise its duplicates (in KSP) are not usable
     vec.assemble()
     return vec
 
@@ -81,7 +82,12 @@ class ii_Function(object):
         Interpolate other ii_Function/ntuple of interpolable things into self.
         '''
         assert len(self) == len(g)
-        [fi.assign(df.interpolate(gi, fi.function_space())) for (fi, gi) in zip(self, g)]
+        # NOTE: assigning a function replaces the vector; here the vectors must be
+        # kept because of .vector()
+        for fi, gi in zip(self, g):
+            x = df.interpolate(gi, fi.function_space()).vector()
+            fi.vector().set_local(x.get_local())
+            fi.vector().apply('insert')
 
         return self
 
-- 
2.43.0


From fa67d58be3ff97cd20ea5c17f0dc878188189164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 22/45] fix: nested vectors are set up for krylov solvers

---
 xii/linalg/nest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xii/linalg/nest.py b/xii/linalg/nest.py
index 2422249..9284541 100644
--- a/xii/linalg/nest.py
+++ b/xii/linalg/nest.py
@@ -128,6 +128,7 @@ def nest(tensor, elim_zeros_tol=1E-15, W=None):
         vecs = [as_petsc(bi) for bi in tensor]
         # FIXME: handle numbers            
         vec = PETSc.Vec().createNest(vecs)
+        vec.setUp()   # Otherwise its duplicates (in KSP) are not usable
         vec.assemble()
         return vec
 
-- 
2.43.0


From 56bdbc7048d44d29d12b04e78d3a986915b158fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 23/45] fix: nullspace is attached to the PETSc operator

---
 xii/linalg/block_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xii/linalg/block_utils.py b/xii/linalg/block_utils.py
index 88b05c6..0ce3597 100644
--- a/xii/linalg/block_utils.py
+++ b/xii/linalg/block_utils.py
@@ -100,9 +100,12 @@ def ii_PETScOperator(bmat, nullspace):
     mat.setPythonContext(Foo(bmat))
 
     if nullspace is not None:
-        Z = PETSc.NullSpace(constant=True,
-                            vectors=[as_backend_type(v).vec() for v in map(convert, nullspace)],
-                            comm=PETSc.COMM_WORLD)
+        # The vectors need to be compatible with those the operator acts on
+        if is_block:
+            vectors = [as_petsc_nest(v.copy()) for v in nullspace]
+        else:
+            vectors = [as_petsc(convert(v)) for v in nullspace]
+        Z = PETSc.NullSpace().create(constant=False, vectors=vectors, comm=PETSc.COMM_WORLD)
         mat.setNullSpace(Z)
     mat.setUp()
 
-- 
2.43.0


From 73ea75c6692ca3d98ba98dfd298d0e4cf083a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 24/45] fix: argument of linear operator for scipy has size of
 columns

---
 xii/linalg/krylov_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/linalg/krylov_api.py b/xii/linalg/krylov_api.py
index 35e2f68..96df575 100644
--- a/xii/linalg/krylov_api.py
+++ b/xii/linalg/krylov_api.py
@@ -16,7 +16,7 @@ class ScipyLinOp(sp.LinearOperator):
         col_sizes = [v.local_size() for v in bmat.create_vec(1)]
 
         self.shape = (sum(row_sizes), sum(col_sizes))
-        self.x = block_vec([PETScVector(MPI.comm_world, n) for n in row_sizes])
+        self.x = block_vec([PETScVector(MPI.comm_world, n) for n in col_sizes])
             
     def _matvec(self, xarr):
         # Fill
-- 
2.43.0


From 9203c01949443480472752d01fe417c699662f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 25/45] fix: nullspace vectors can be given by constants

---
 xii/linalg/block_nullspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xii/linalg/block_nullspace.py b/xii/linalg/block_nullspace.py
index 005b076..fefd781 100644
--- a/xii/linalg/block_nullspace.py
+++ b/xii/linalg/block_nullspace.py
@@ -26,11 +26,11 @@ class BlockNullspace(object):
         # Substite constancts
         for i, vi in enumerate(vec):
             if isinstance(vi, dolfin.Constant):
-                vec[i] = interpolate(vi, self.W[i]).vector()
+                vec[i] = dolfin.interpolate(vi, self.W[i]).vector()
             elif isinstance(vi, (float, int)):
-                vec[i] = interpolate(Constant(vi), self.W[i]).vector()
+                vec[i] = dolfin.interpolate(dolfin.Constant(vi), self.W[i]).vector()
             elif isinstance(vi, (list, tuple)):
-                vec[i] = interpolate(Constant(*vi), self.W[i]).vector()
+                vec[i] = dolfin.interpolate(dolfin.Constant(vi), self.W[i]).vector()
                 
         for b, alpha in zip(self, self.angles(vec)):
             assert abs(abs(alpha/vec.norm())-1) > 1E-10
-- 
2.43.0


From 0625ab7eb2416b69a0dba2ee2ca7c27f4973f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 26/45] fix: columns of collapsed operator don't depend on
 vector from the pool

---
 xii/linalg/fe_space_op.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xii/linalg/fe_space_op.py b/xii/linalg/fe_space_op.py
index 963dcbe..633fe3a 100644
--- a/xii/linalg/fe_space_op.py
+++ b/xii/linalg/fe_space_op.py
@@ -3,6 +3,7 @@ from block.object_pool import vec_pool
 import scipy.sparse as sparse
 from petsc4py import PETSc
 import dolfin as df
+import numpy as np
 
 
 class FESpaceOperator(block_base):
@@ -26,7 +27,8 @@ class FESpaceOperator(block_base):
 
         # Otherwise compute it, but only once
         x = self.create_vec(dim=1)
-        x_values = x.get_local()
+        # The vector can come from the pool, i.e. it needn't be zero
+        x_values = np.zeros(x.local_size())
 
         columns = []
         df.info('Collapsing to %d x %d matrix' % (self.V0.dim(), self.V1.dim()))
-- 
2.43.0


From b4a360c7ef070139d0c0fb2d6a24af8aad2f08dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 27/45] fix: riesz map with respect to inner product on
 nullspace complement inverts it

---
 xii/linalg/sherman_morrison.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/xii/linalg/sherman_morrison.py b/xii/linalg/sherman_morrison.py
index 6bb8dc3..c58e7cf 100644
--- a/xii/linalg/sherman_morrison.py
+++ b/xii/linalg/sherman_morrison.py
@@ -100,29 +100,17 @@ class L20_riesz_map(block_base):
         block_base.__init__(self)
         self.P = Projector(V, nullspace)
         self.iM = inv(self.P.M)
-        # M - (M*Z)*Z.T*M = M*P and so we want inv(P)*inv(M)
-        # inv(P) uses woodbory formula applied to id - outer(pi, di)
-        #
-        #   inv(id - outer(pi, di)) = id + outer(pi, di)/(1-sum(inner(pi, di)))
-        #
+
         self.primal_basis = self.P.primal_basis
         self.dual_basis = self.P.dual_basis
-        # The denominator 1-sum(inner(pi, di)) can be precomputed and since
-        # inner(pi, di) = 1 we have
-        self.scale = 1 - len(self.primal_basis)
 
     def matvec(self, x):
-        '''Sherman-Woodburry'''
+        '''
+        M - (M*Z)*Z.T*M = M*P where P is a projector. The operator is thus 
+        inverted on the complement of nullspace where P acts as identity
+        '''
         y = self.iM*x  # From dual to primal
-        basis = zip(self.primal_basis, self.dual_basis)
-
-        pi, di = next(basis)
-        w = di.inner(y)*pi
-        for pi, di in basis:
-            w.axpy(di.inner(y), pi)
-        w *= (1/self.scale)
-        
-        return x + w
+        return self.P*y
     
 # -------------------------------------------------------------------
 
@@ -156,4 +144,4 @@ if __name__ == '__main__':
     iL20 = L20_riesz_map(V, nullspace)
     y = iL20*x  # Apply some operator that is "blind" on the nullspace
     # Check inverse
-    assert norm(x-y) < 1E-13
+    assert norm(Pfh.vector()-y) < 1E-10*norm(y), norm(Pfh.vector()-y)
-- 
2.43.0


From e665af8b85d8ff16b287a620d14369336dc9480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:10 +0000
Subject: [PATCH 28/45] fix: adjoint forms with arguments from the same space
 and all kinds of reductions

---
 xii/assembler/block_form.py | 35 ++++++++++++++++++-----------------
 xii/assembler/ufl_utils.py  |  5 +++++
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/xii/assembler/block_form.py b/xii/assembler/block_form.py
index cb0620c..e2b371e 100644
--- a/xii/assembler/block_form.py
+++ b/xii/assembler/block_form.py
@@ -1,4 +1,4 @@
-from xii.assembler.ufl_utils import traverse_terminals, replace as ii_replace
+from xii.assembler.ufl_utils import traverse_terminals, REDUCTION_ATTRIBUTES
 from dolfin.function.argument import Argument
 from itertools import dropwhile
 from dolfin import *
@@ -188,24 +188,25 @@ def form_adjoint(expr):
         return expr.reconstruct(integrand=form_adjoint(expr.integrand()))
 
     # For adjoint we need one trial and one test function. The idea is
-    # then exchange the two while keeping track of trace attributes
-    arguments = set([f for f in traverse_terminals(expr) if isinstance(f, Argument)])
+    # then exchange the two while keeping track of reduction attributes. 
+    # NOTE: this has to happen at once since the arguments can come from the
+    # same space
+    adj_type = {0: TrialFunction, 1: TestFunction}
 
-    ii_attrs = ('trace_', 'restriction_', 'average_')
+    def adjoint(e):
+        if isinstance(e, Argument):
+            adj_arg = adj_type[e.number()](e.function_space())
+            for attr in REDUCTION_ATTRIBUTES:
+                if hasattr(e, attr):
+                    setattr(adj_arg, attr, getattr(e, attr))
+            return adj_arg
 
-    adj_type = {0: TrialFunction, 1: TestFunction}
-    for arg in arguments:
-        adj_arg = adj_type[arg.number()](arg.function_space())
-        # Record trace attributes
-        attrs = []
-        for attr in ii_attrs:
-            if hasattr(arg, attr):
-                setattr(adj_arg, attr, getattr(arg, attr))
-                attrs.append(attr)
-        # Substitute
-        expr = ii_replace(expr, arg, adj_arg, attrs)
-
-    return expr
+        if not any(isinstance(t, Argument) for t in traverse_terminals(e)):
+            return e
+
+        return type(e)(*map(adjoint, e.ufl_operands))
+
+    return adjoint(expr)
 
 
 def make_selfadjoint(bform):
diff --git a/xii/assembler/ufl_utils.py b/xii/assembler/ufl_utils.py
index a672701..abc2b18 100644
--- a/xii/assembler/ufl_utils.py
+++ b/xii/assembler/ufl_utils.py
@@ -3,6 +3,11 @@ from ufl_legacy.core.terminal import Terminal
 
 import dolfin as df
 
+# Reduced arguments are copies of the original ones that carry one of these
+REDUCTION_ATTRIBUTES = ('trace_', 'average_', 'flux_average_', 'restriction_', 'injection_',
+                        'extension_', 'dirac_', 'grad_dirac_', 'mean_', 'surface_mean_',
+                        'patch_average_', 'transpose_trace_')
+
 
 def topological_dim(thing):
     '''Extract topological dimension of thing's cell'''
-- 
2.43.0


From e5c65d925e59fa184f2b9f58a298613efbb761e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:10 +0000
Subject: [PATCH 29/45] fix: derivative of forms with expressions and all kinds
 of reductions

---
 xii/nonlin/jacobian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xii/nonlin/jacobian.py b/xii/nonlin/jacobian.py
index 10148d6..230979b 100644
--- a/xii/nonlin/jacobian.py
+++ b/xii/nonlin/jacobian.py
@@ -1,4 +1,4 @@
-from xii.assembler.ufl_utils import replace as ii_replace
+from xii.assembler.ufl_utils import replace as ii_replace, REDUCTION_ATTRIBUTES
 
 import dolfin as df
 import ufl_legacy as ufl
@@ -36,7 +36,7 @@ def block_jacobian(bf, foos):
 
 def is_restricted(x):
     '''Is x marked for restriction (in some way we support)'''
-    for rtype in ('trace_', 'average_', 'restriction_'):
+    for rtype in REDUCTION_ATTRIBUTES:
         if hasattr(x, rtype):
             return True
         
@@ -47,7 +47,7 @@ def restriction_type(x):
     '''How is x restricted'''
     assert is_restricted(x)
 
-    for rtype in ('trace_', 'average_', 'restriction_'):
+    for rtype in REDUCTION_ATTRIBUTES:
         if hasattr(x, rtype):
             return rtype
 
@@ -72,7 +72,7 @@ def ii_derivative(f, x):
     # NOTE: in the following I try to avoid assembly of zero forms because
     # these might not be well-defined for xii assembler. Also, assembling
     # zeros is useless
-    for fi in [c for c in f.coefficients() if not isinstance(c, df.Constant)]:
+    for fi in [c for c in f.coefficients() if isinstance(c, df.Function)]:
         # Short circuit if (partial fi)/(partial x) is 0
         if not ((fi == x) or fi.vector().id() == x.vector().id()): continue
 
-- 
2.43.0


From 3046364ef825db562185baa35117d75039bbf290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 30/45] fix: mortar meshes map cells of the interface to facets
 of the submeshes

---
 xii/meshing/mortar_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xii/meshing/mortar_mesh.py b/xii/meshing/mortar_mesh.py
index ed94252..c9e6b18 100644
--- a/xii/meshing/mortar_mesh.py
+++ b/xii/meshing/mortar_mesh.py
@@ -69,8 +69,7 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
     subdomain_meshes = {tag: EmbeddedMesh(subdomains, tag) for tag in markers}
 
     # Alloc the entity maps for the embedded mesh
-    interface_map = {subdomain_meshes[tag].id(): [None]*interface_mesh.num_cells()
-                     for tag in markers}
+    interface_map = {subdomain_meshes[tag].id(): {} for tag in markers}
     
     # THe maps are filled by the following idea. Using marking function
     # of interface mesh one cat get cells of that color and useing entity
@@ -83,7 +82,7 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
     sub_mesh_map = lambda tag: dict(
         (mesh_c, submesh_c)
         for submesh_c, mesh_c in
-        enumerate(subdomain_meshes[tag].parent_entity_map[mesh.id()][tdim])
+        subdomain_meshes[tag].parent_entity_map[mesh.id()][tdim].items()
     )
 
     # Thec cell-cell connectivity of each submesh
@@ -113,6 +112,7 @@ def mortar_meshes(subdomains, markers, ifacet_iter=None, strict=True, tol=1E-14)
                     if found:
                         interface_map[mesh_id][cell_index] = submesh_facet.index()
                         break
+                assert found
 
     # Collapse to list; I want list indexing
     subdomain_meshes = np.array([subdomain_meshes[m] for m in markers]) 
-- 
2.43.0


From f4a96a7295098943b63bb6c9cb7b595b07708cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 31/45] fix: union of more than two meshes, unions do not
 change maps of their parts

---
 xii/meshing/union_mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xii/meshing/union_mesh.py b/xii/meshing/union_mesh.py
index 2042e07..282d292 100644
--- a/xii/meshing/union_mesh.py
+++ b/xii/meshing/union_mesh.py
@@ -13,8 +13,8 @@ def union_mesh(meshes, tol=1E-12):
         return meshes[0]
     # Recurse
     if num_meshes > 2:
-        return union_mesh([union_mesh(meshes[:num_meshes/2+1]),
-                           union_mesh(meshes[num_meshes/2+1:])])
+        return union_mesh([union_mesh(meshes[:num_meshes//2+1], tol),
+                           union_mesh(meshes[num_meshes//2+1:], tol)], tol)
 
     gdim, = set(m.geometry().dim() for m in meshes)
     tdim, = set(m.topology().dim() for m in meshes)
@@ -73,10 +73,10 @@ def union_mesh(meshes, tol=1E-12):
     if not hasattr(mesh0, 'leafs'):
         merged_mesh.leafs = [(mesh0.id(), lg0)]
     else:
-        merged_mesh.leafs = mesh0.leafs
+        merged_mesh.leafs = list(mesh0.leafs)
         
     if not hasattr(mesh1, 'leafs'):
-        merged_mesh.leafs.append([mesh1.id(), lg1])
+        merged_mesh.leafs.append((mesh1.id(), lg1))
     else:
         for id_, map_ in mesh1.leafs:
             merged_mesh.leafs.append((id_, lg1[map_]))
-- 
2.43.0


From 0e528b1abde11ce82ae1d34b2b25a01e3b1716dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 32/45] fix: branches with single cell and closed first branch
 in line meshes

---
 xii/meshing/generation.py | 13 ++++---------
 xii/meshing/line_mesh.py  | 13 ++++---------
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/xii/meshing/generation.py b/xii/meshing/generation.py
index 8b82948..0c27881 100644
--- a/xii/meshing/generation.py
+++ b/xii/meshing/generation.py
@@ -4,19 +4,16 @@ import numpy as np
 
 def line_mesh(branches, tol=1E-13):
     '''1d in 2d/3d mesh made up of branches. Branch = linked vertices'''
-    it_branches = iter(branches)
-
     # In the mesh that we are building I want to put first the end nodes
     # of the branch and then the interior points of the branches as they
     # are visited.
 
-    # Endpoints; first branch is not constrained and can add coordinates
-    branch = next(it_branches)
-    ext_nodes = branch[[0, -1]]
+    # Endpoints; the very first one is not constrained and can add coordinates
+    ext_nodes = branches[0][[0]]
 
-    ext_bounds = [(0, 1)]
+    ext_bounds = []
     # For the other ones need to check collisions
-    for branch in it_branches:
+    for branch in branches:
         endpoints = branch[[0, -1]]
         
         bounds = []
@@ -36,8 +33,6 @@ def line_mesh(branches, tol=1E-13):
     for (fE, lE), branch in zip(ext_bounds, branches):
         int_nodes = branch[1:-1]
 
-        if not len(int_nodes): continue
-        
         # Get the node idices to encode cell connectivity
         lI = fI + len(int_nodes)
         vmap = np.r_[fE, np.arange(fI, lI), lE]
diff --git a/xii/meshing/line_mesh.py b/xii/meshing/line_mesh.py
index 6350b08..9b3f8a7 100644
--- a/xii/meshing/line_mesh.py
+++ b/xii/meshing/line_mesh.py
@@ -4,19 +4,16 @@ import numpy as np
 
 def line_mesh(branches, tol=1E-13):
     '''1d in 2d/3d mesh made up of branches. Branch = linked vertices'''
-    it_branches = iter(branches)
-
     # In the mesh that we are building I want to put first the end nodes
     # of the branch and then the interior points of the branches as they
     # are visited.
 
-    # Endpoints; first branch is not constrained and can add coordinates
-    branch = next(it_branches)
-    ext_nodes = branch[[0, -1]]
+    # Endpoints; the very first one is not constrained and can add coordinates
+    ext_nodes = branches[0][[0]]
 
-    ext_bounds = [(0, 1)]
+    ext_bounds = []
     # For the other ones need to check collisions
-    for branch in it_branches:
+    for branch in branches:
         endpoints = branch[[0, -1]]
         
         bounds = []
@@ -36,8 +33,6 @@ def line_mesh(branches, tol=1E-13):
     for (fE, lE), branch in zip(ext_bounds, branches):
         int_nodes = branch[1:-1]
 
-        if not len(int_nodes): continue
-        
         # Get the node idices to encode cell connectivity
         lI = fI + len(int_nodes)
         vmap = np.r_[fE, np.arange(fI, lI), lE]
-- 
2.43.0


From 6e53e4729d499f1bae81fd65d932a82893543961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 33/45] fix: embeddings found later map vertices too

---
 xii/meshing/embedded_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 23b4dd0..3bc9764 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -181,7 +181,9 @@ class EmbeddedMesh(df.Mesh):
 
                 entity_mapping[the_cell] = entity
 
-                # FIXME: do we need vertex embedding here?
+                for v in c2v(the_cell):
+                    dist = np.linalg.norm(entity_x - x[v], 2, axis=1)
+                    vertex_mapping[v] = entity_vertices[np.argmin(dist)]
         self.parent_entity_map[parent_mesh.id()] = {0: vertex_mapping, tdim: entity_mapping}
 
         if not any(pmesh.id() == parent_mesh.id() for pmesh in self.parent_meshes):
-- 
2.43.0


From 176d216979f84a8533503582dfb57477bdfb4340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 34/45] fix: overlap mesh has maps of the same kind to both
 meshes

---
 xii/meshing/subdomain_mesh.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xii/meshing/subdomain_mesh.py b/xii/meshing/subdomain_mesh.py
index 2a690a8..5230635 100644
--- a/xii/meshing/subdomain_mesh.py
+++ b/xii/meshing/subdomain_mesh.py
@@ -50,7 +50,7 @@ def OverlapMesh(mesh1, mesh2, tol=1E-14):
     # Get som idea of mesh size to make relative comparison of coords
     scale = max(emesh_x.max(axis=0) - emesh_x.min(axis=0))
     # Also build the map for vertices
-    entity_map = {0: [None]*emesh.num_vertices(), tdim: [None]*emesh.num_cells()}
+    entity_map = {0: {}, tdim: {}}
     vertex_map = entity_map[0]
     cell_map = entity_map[tdim]
 
@@ -85,8 +85,8 @@ def OverlapMesh(mesh1, mesh2, tol=1E-14):
         # Insert
         cell_map[cell.index()] = the_cell.pop()
     # Sanity
-    assert not any(v is None for v in entity_map[0])
-    assert not any(v is None for v in entity_map[tdim])
+    assert len(entity_map[0]) == emesh.num_vertices()
+    assert len(entity_map[tdim]) == emesh.num_cells()
     # At this point we can build add the map
     emesh.parent_entity_map[mesh2.id()] = entity_map
 
@@ -107,16 +107,16 @@ if __name__ == '__main__':
     mesh12 = OverlapMesh(mesh1, mesh2)
 
     # FIXME: split the file!
-    map1 = mesh12.parent_entity_map[mesh1.id()][2]
-    map2 = mesh12.parent_entity_map[mesh2.id()][2]
+    map1 = mesh12.parent_entity_map[mesh1.id()][2].values()
+    map2 = mesh12.parent_entity_map[mesh2.id()][2].values()
     # Cell check out
     for c, c1, c2 in zip(df.cells(mesh12), map1, map2):
         assert df.near(c.midpoint().distance(df.Cell(mesh1, c1).midpoint()), 0, 1E-14)
         assert df.near(c.midpoint().distance(df.Cell(mesh2, c2).midpoint()), 0, 1E-14)
         
     # Vertices are not that important but anyways
-    x1 = mesh1.coordinates(); map1 = mesh12.parent_entity_map[mesh1.id()][0]
-    x2 = mesh2.coordinates(); map2 = mesh12.parent_entity_map[mesh2.id()][0]
+    x1 = mesh1.coordinates(); map1 = mesh12.parent_entity_map[mesh1.id()][0]; map1 = [map1[i] for i in range(len(map1))]
+    x2 = mesh2.coordinates(); map2 = mesh12.parent_entity_map[mesh2.id()][0]; map2 = [map2[i] for i in range(len(map2))]
     for x, i1, i2 in zip(mesh12.coordinates(), map1, map2):
         assert np.linalg.norm(x - x1[i1]) < 1E-13
         assert np.linalg.norm(x - x2[i2]) < 1E-13
-- 
2.43.0


From 7d4ee20fd68f9cc011b1b6db361a1caefc9e2f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 35/45] fix: embedding map of a mesh with single cell

---
 xii/meshing/embedded_mesh.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xii/meshing/embedded_mesh.py b/xii/meshing/embedded_mesh.py
index 3bc9764..35b374a 100644
--- a/xii/meshing/embedded_mesh.py
+++ b/xii/meshing/embedded_mesh.py
@@ -376,10 +376,8 @@ def InnerNormal(mesh, orientation):
 def is_1_sequence(iterable):
     '''value mathces the index (-offset)'''
     steps = np.unique(np.diff(np.sort(np.fromiter(iterable, dtype='uintp'))))
-    if not len(steps) == 1:
-        return False
-
-    return steps[0] == 1
+    # One item is a sequence too
+    return all(step == 1 for step in steps)
 
 
 def build_embedding_map(emesh, mesh, esubdomains=None, tags=None, tol=1E-14):
-- 
2.43.0


From 9245b7d8dabdab14f600eab2a70a4abff1fd4975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 36/45] fix: union with a mesh all of whose boundary is shared

---
 xii/meshing/union_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/meshing/union_mesh.py b/xii/meshing/union_mesh.py
index 282d292..f6e0ecc 100644
--- a/xii/meshing/union_mesh.py
+++ b/xii/meshing/union_mesh.py
@@ -34,7 +34,7 @@ def union_mesh(meshes, tol=1E-12):
 
     x1 = x1[bdry_vertices1]
     shared_vertices = {}
-    while bdry_vertices0:
+    while bdry_vertices0 and bdry_vertices1:
         i = bdry_vertices0.pop()
         x = x0[i]
         # Try to match it
-- 
2.43.0


From 3e92cb979147972b29c43ef05d38d51f5ace2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 37/45] fix: CentroidDistance2 is the sum of distances to the
 facet

---
 xii/meshing/cell_centers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 87fec56..7f8e435 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -455,8 +455,8 @@ def CentroidVector(mesh):
 
 
 def CentroidDistance2(mesh):
-    '''Magnitude of CentroidVector as a DLT function'''
-    return _CenterDistance(mesh, Center=CentroidVector2)
+    '''Sum of distances of facet centroid from cell centroids as a DLT function'''
+    return _CenterDistance2(mesh, Center=CentroidVector2)
 
                            
 def CentroidVector2(mesh):
-- 
2.43.0


From 74e9c32f37f0c543d36d36eb3dcd02a57652653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 38/45] fix: sums of preconditioners are added by the name of
 their type

---
 xii/linalg/nest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xii/linalg/nest.py b/xii/linalg/nest.py
index 9284541..6b229d6 100644
--- a/xii/linalg/nest.py
+++ b/xii/linalg/nest.py
@@ -44,7 +44,7 @@ def pc_mat(pc, block):
             pc_ = PETSc.PC().create()
             A = pc_mat(pc_, op)
 
-            pc.addCompositePC(pc_.getType())
+            pc.addCompositePCType(pc_.getType())
 
             pc_sub = pc.getCompositePC(sub)            
             # Make it
-- 
2.43.0


From e0058a6c27c9b5f02c3217d4c2ea2eb9dd718aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 39/45] fix: uniform extension of vector and tensor valued
 functions

---
 xii/assembler/extension_matrix.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xii/assembler/extension_matrix.py b/xii/assembler/extension_matrix.py
index 605b46b..495b27d 100644
--- a/xii/assembler/extension_matrix.py
+++ b/xii/assembler/extension_matrix.py
@@ -85,14 +85,15 @@ def uniform_extension_matrix(V, EV):
     columns = np.argmin(lookup, axis=1)
     # Every scalar can be used used to set all the components
     if is_tensor_elm:
-        shift = V.dim()/len(V_dofs_x)
+        shift = V.dim()//len(V_dofs_x)
         component_idx = np.arange(shift)
         # shift*dof + components
         columns = (shift*np.array([columns]).T + component_idx).flatten()
 
-    # As csr (1 col per row)
-    values = np.ones_like(columns)
-    rows = np.arange(EV.dim()+1)
+    # As csr (1 col per row), with types that PETSc wants
+    columns = columns.astype('int32')
+    values = np.ones(len(columns))
+    rows = np.arange(EV.dim()+1, dtype='int32')
 
     E = csr_matrix((values, columns, rows), shape=(EV.dim(), V.dim()))
 
-- 
2.43.0


From 993cf7ad3f6fb5fb20d710f5a22d308774aad725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 40/45] fix: non-conforming trace at dofs which are on the
 boundary

---
 xii/assembler/nonconforming_trace_matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xii/assembler/nonconforming_trace_matrix.py b/xii/assembler/nonconforming_trace_matrix.py
index e105a53..2fc4f2c 100644
--- a/xii/assembler/nonconforming_trace_matrix.py
+++ b/xii/assembler/nonconforming_trace_matrix.py
@@ -41,6 +41,10 @@ def nonconforming_trace_mat(V, T):
     collisions = []
     for Tdof_x in T.tabulate_dof_coordinates().reshape((T.dim(), -1)):
         c = tree.compute_first_entity_collision(df.Point(*Tdof_x))
+        if c >= limit:
+            # The dof can be on the boundary, up to round-off
+            closest, distance = tree.compute_closest_entity(df.Point(*Tdof_x))
+            if distance < 1E-10*mesh.hmax(): c = closest
         # Contained?
         c >= limit and df.warning('Some colliding cells not found')
             
-- 
2.43.0


From aaac14436257c4bafac2ea66b855649455068962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 41/45] fix: disk quadrature of degree 11 and of degrees above
 19

---
 xii/assembler/disk_quadrature.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/xii/assembler/disk_quadrature.py b/xii/assembler/disk_quadrature.py
index 537c813..77a90ac 100644
--- a/xii/assembler/disk_quadrature.py
+++ b/xii/assembler/disk_quadrature.py
@@ -12,7 +12,11 @@ def disk_quadrature(degree):
         print(f'REQUESTED EVEN DEGREE {degree-1}. ADJUSTING TO ODD {degree}')                
     if degree > 19:
         print('EXCEEDING MAXIMUM SUPPORTED DEGREE. FALLING BACK TO 19')
-        degree == 19
+        degree = 19
+    # There is no table for degree 11. (The one that used to be here had points
+    # 14 radii away from the center and did not integrate x**2)
+    if degree == 11:
+        degree = 13
 
     # Templates for weight
     if degree == 1:
@@ -31,13 +35,6 @@ def disk_quadrature(degree):
                 (0.327176874928167, 0.415187657878755, 0.000000000000000, 2),
                 (0.005591341512851, 0.834794942216211, 0.834794942216211, 3),
                 (0.190570560169519, 0.740334457173511, 0.379016937530835, 4)]
-    elif degree == 11:
-        data = [(-0.103220620849181, 0.000000000000000, 0.000000000000000, 1),
-                (0.000561120485457, 10.081713912649978, 10.081713912649978, 3),
-                (0.234185472691706, 0.329855087221954, 0.329855087221954, 3),
-                (0.123731369524117, 0.163309595229403, 0.163309595229403, 3),
-                (0.194337435615691, 0.582963679648472, 0.582963679648472, 3),
-                (0.129193960146342, 0.862551409331466, 0.191706749096887, 4)]
     elif degree == 13:
         data = [(0.156239869837333, 0.283402832348825, 0.000000000000000, 2),
                 (0.069447409266977, 0.920575474036251, 0.000000000000000, 2),
-- 
2.43.0


From d444ea06e70910f90aebf46b4ac7d2c07f5298dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 42/45] fix: means and patch averages follow changes of markers

---
 xii/assembler/mean_matrix.py          | 5 +++--
 xii/assembler/patch_average_matrix.py | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/xii/assembler/mean_matrix.py b/xii/assembler/mean_matrix.py
index 6de416d..b8c99aa 100644
--- a/xii/assembler/mean_matrix.py
+++ b/xii/assembler/mean_matrix.py
@@ -15,8 +15,9 @@ def memoize_average(average_mat):
     '''Cached average'''
     cache = {}
     def cached_average_mat(V, TV, reduced_mesh, data):
-        # Weight can have different values next time
-        if data['weight'] is not None:
+        # Weight can have different values next time, so can the markers
+        measure = data['measure']
+        if data['weight'] is not None or (measure is not None and measure.subdomain_data() is not None):
             return average_mat(V, TV, reduced_mesh, data)
 
         key = ((V.ufl_element(), V.mesh().id()),
diff --git a/xii/assembler/patch_average_matrix.py b/xii/assembler/patch_average_matrix.py
index 54b0588..7b99083 100644
--- a/xii/assembler/patch_average_matrix.py
+++ b/xii/assembler/patch_average_matrix.py
@@ -18,6 +18,10 @@ def memoize_average(average_mat):
         key = ((V.ufl_element(), V.mesh().id()),
                (TV.ufl_element(), TV.mesh().id()),
                data['vertex_f'], data['patch_f'])
+        # Patches can be marked differently next time
+        key = key + (data['vertex_f'].vector().get_local().tobytes(), )
+        if data['patch_f'] is not None:
+            key = key + (data['patch_f'].array().tobytes(), )
 
         if key not in cache:
             cache[key] = average_mat(V, TV, reduced_mesh, data)
-- 
2.43.0


From 65e46237d7d2335d564d75f3d4cd0542cdba3f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:48 +0000
Subject: [PATCH 43/45] fix: traces follow changes of markers and normals

---
 xii/assembler/trace_matrix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xii/assembler/trace_matrix.py b/xii/assembler/trace_matrix.py
index 9cf8bad..f71cce1 100644
--- a/xii/assembler/trace_matrix.py
+++ b/xii/assembler/trace_matrix.py
@@ -22,7 +22,11 @@ def memoize_trace(trace_mat):
         key = ((V.ufl_element(), V.mesh().id()),
                (TV.ufl_element(), TV.mesh().id()),
                data['restriction'], data['normal'], tuple(data['tag_data'][1]))
-               
+        # The parts can be marked and oriented differently next time
+        key = key + (data['tag_data'][0].array().tobytes(), )
+        if data['restriction'] and data['normal'] is not None:
+            key = key + (data['normal'].vector().get_local().tobytes(), )
+
         if key not in cache:
             cache[key] = trace_mat(V, TV, trace_mesh, data)
         return cache[key]
-- 
2.43.0


From 0777b8521cf1cf8016becf774759073af6f0be2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 44/45] fix: circumcenters of cells of a curve in 3d have three
 components

---
 xii/meshing/cell_centers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xii/meshing/cell_centers.py b/xii/meshing/cell_centers.py
index 7f8e435..24e0d15 100644
--- a/xii/meshing/cell_centers.py
+++ b/xii/meshing/cell_centers.py
@@ -73,12 +73,13 @@ public:
     std::vector<double> coordinates;
     cell.get_vertex_coordinates(coordinates);
 
-    Eigen::Vector2d v0(coordinates[0], coordinates[1], coordinates[2]);
-    Eigen::Vector2d v1(coordinates[3], coordinates[4], coordinates[5]);
-    Eigen::Vector2d y = 0.5*(v0 + v1);
+    Eigen::Vector3d v0(coordinates[0], coordinates[1], coordinates[2]);
+    Eigen::Vector3d v1(coordinates[3], coordinates[4], coordinates[5]);
+    Eigen::Vector3d y = 0.5*(v0 + v1);
     // Just midpoint
     values[0] = y[0];
     values[1] = y[1];
+    values[2] = y[2];
   }
 
   std::shared_ptr<dolfin::Mesh> mesh;
-- 
2.43.0


From 653ac473d8f50fbdc82950169451a307881c78ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 45/45] fix: vertices of a mesh can be walked without a mesh
 function

---
 xii/meshing/branching.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xii/meshing/branching.py b/xii/meshing/branching.py
index 69dc265..11a4000 100644
--- a/xii/meshing/branching.py
+++ b/xii/meshing/branching.py
@@ -91,8 +91,11 @@ def walk_vertices(arg, tag=None, is_loop=False):
     if isinstance(arg, df.cpp.mesh.MeshFunctionSizet):
         mesh = arg.mesh()
         assert arg.dim() == 1
+        cell_f = arg.array()
     else:
         mesh = arg
+        # All the cells
+        cell_f, tag = np.zeros(mesh.num_cells(), dtype='uintp'), 0
         
     assert mesh.topology().dim() == 1 and mesh.geometry().dim() > 1
     # The boring cese
@@ -101,7 +104,7 @@ def walk_vertices(arg, tag=None, is_loop=False):
     c2v = mesh.topology()(1, 0)
     _, v2c = mesh.init(0, 1), mesh.topology()(0, 1)
 
-    cells = walk_cells(arg.array(), tag=tag, c2v=c2v, v2c=v2c, is_loop=is_loop)
+    cells = walk_cells(cell_f, tag=tag, c2v=c2v, v2c=v2c, is_loop=is_loop)
     cell, orient = next(cells)
 
     vertices = c2v(cell) if orient else reversed(c2v(cell))
-- 
2.43.0

