'''known_findings.json: repaired defects (and the known ones with their probes)'''
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('C01', 'fix: non-conforming trace falls', 'trace to a line that does not follow facets raised instead of using the non-conforming operator'),
    ('C02', 'fix: 3d-1d trace on a line', '3d-1d trace evaluated functions outside of the cell that has the point'),
    ('C01', 'fix: trace by tags', 'trace by tags to a mesh of several markers lost the facets of all but one of them'),
    ('C01', 'fix: average and jump traces', 'average was one-sided/over-counted, jump had wrong sign, both failed on boundary facets'),
    ('C03', 'fix: transpose trace is', 'transposed trace from the full mesh swapped its spaces'),
    ('C04', 'fix: point traces of gradient along', 'second gradient point trace at the same point reused the tangent of the first'),
    ('C03', 'fix: injection by the parent map', 'injection by the parent map of refined mesh failed, its matrix was cached under incomplete key'),
    ('C03', 'fix: injection keeps', 'injection overwrote the maps of the fine mesh to other meshes'),
    ('C04', 'fix: weighted mean follows', 'mean with weight kept the values of the weight from the first assembly'),
    ('C04', 'fix: patch averages with coloring', 'patch averages with coloring gave wrong rows when several dofs share the patch'),
    ('C04', 'fix: point trace of a function', 'point trace marked the function of the user, all its other uses changed meaning'),
    ('C04', 'fix: forms with both the reduced', 'form with reduced and not reduced argument on the same mesh could not be assembled'),
    ('C10', 'fix: convert composed', 'transposes of composed operators recursed without end, numbers in sums and off the diagonal were lost or failed'),
    ('C10', 'fix: get_dims', 'sizes of products with numbers and of block vectors could not be determined'),
    ('C10', 'fix: numpy scalars', 'numpy numbers in block operators were not recognized'),
    ('C10', 'fix: collapse_iter', 'iterative conversion failed with operator objects used several times and numbers in sums'),
    ('C10', 'fix: convert products of composed', 'products of composed operators failed, nest lost the shape of zero rows'),
    ('C11', 'fix: apply_bc with dicts', 'right hand sides for later boundary values were wrong; dicts, plain matrices, missing diagonals failed'),
    ('C12', 'fix: regrouping operators', 'regrouped vectors were overwritten by later products; tuples of offsets failed'),
    ('C12', 'fix: vectorized operator', 'operator over a list of spaces could not be created, calls shared an array'),
    ('C13', 'fix: interpolating a block function', 'interpolation replaced the vectors of components, other views went stale'),
    ('C13', 'fix: nested vectors are set up', 'solvers could not duplicate nested vectors that were not set up'),
    ('C17', 'fix: nullspace is attached', 'nullspace given to the operator was silently ignored'),
    ('C17', 'fix: argument of linear operator', 'rectangular operator had argument with the size of its rows'),
    ('C18', 'fix: nullspace vectors can be given', 'numbers and constants as components raised NameError'),
    ('C18', 'fix: columns of collapsed operator', 'matrix of an operator depended on previous content of a pooled vector'),
    ('C19', 'fix: adjoint forms', 'adjoints with arguments from the same space were the form itself, other marks than trace/restriction/average were lost'),
    ('C16', 'fix: derivative of forms', 'forms with expressions failed, other marks than trace/restriction/average were lost'),
    ('C18', 'fix: riesz map', 'Riesz map returned its argument (a dual vector), and divided by zero for one nullspace vector'),
    ('C14', 'fix: mortar meshes map cells', 'cells of the interface were mapped to facets numbered in another mesh'),
    ('C15', 'fix: union of more than two', 'maps of unions of several meshes were wrong, and maps of parts were changed'),
    ('C15', 'fix: branches with single cell', 'line meshes with branches of a single cell or a closed first branch failed'),
    ('C14', 'fix: embeddings found later', 'map of vertices was missing in embeddings computed after creation'),
    ('C14', 'fix: overlap mesh has maps', 'one of two maps of the overlap mesh was a list of another kind'),
    ('C14', 'fix: embedding map of a mesh with single', 'maps of meshes with a single cell failed'),
    ('C15', 'fix: union with a mesh all of whose', 'union with a mesh having no interior vertices failed'),
    ('C21', 'fix: CentroidDistance2', 'distance of centroids over both sides of the facet used the one-sided rule'),
    ('C13', 'fix: sums of preconditioners', 'sum of two preconditioners on nest blocks failed, the types were compared with objects'),
    ('C21', 'fix: circumcenters of cells', 'circumcenters of cells of a curve in 3d could not be computed'),
    ('C15', 'fix: vertices of a mesh can be walked', 'walking vertices of a mesh raised'),
    ('C22', 'fix: uniform extension of vector', 'uniform extension of vector and tensor valued functions failed or mixed their components'),
    ('C01', 'fix: non-conforming trace at dofs', 'non-conforming trace evaluated a wrong cell at dofs which are on the boundary of the mesh'),
    ('C02', 'fix: disk quadrature of degree 11', 'averages over disks with degree 10, 11 used points outside of the disk and were wrong; degrees above 19 failed'),
    ('C05', 'fix: means and patch averages follow', 'means over marked cells and patch averages kept the markers from the first assembly'),
    ('C05', 'fix: traces follow changes', 'traces by tags and one sided traces kept the markers and orientation of normals from the first assembly'),
]
KNOWN = []
EXTRA = os.path.join(V, 'tools', 'known.json')
if os.path.exists(EXTRA):
    KNOWN = json.load(open(EXTRA))
log = [l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()]
out = []
used = set()
for prop, subj, what in FIXED:
    hit = [h for h, s in log if s.startswith(subj)]
    assert len(hit) == 1, (subj, hit)
    used.add(hit[0])
    out.append({'property': prop, 'status': 'fixed', 'commit': hit[0], 'line': 'fixed: property=%s %s %s' % (prop, hit[0], what)})
for h, s in log:
    if s.startswith('fix:') and h not in used:
        print('not recorded', h, s)
out += KNOWN
with open(os.path.join(V, 'known_findings.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
