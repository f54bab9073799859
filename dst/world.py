'''
Things a plan talks about: meshes, reduced meshes, spaces, coefficients. All are
built lazily from their (JSON) specification, with fixed pseudo-random content.
'''
import numpy as np
import dolfin as df
import xii
from refmodel import Geo, geo
from sim import Violation, Harness
from itertools import combinations


def rng_of(*key):
    import hashlib
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.RandomState(int.from_bytes(h[:4], 'little'))


# ---------------------------------------------------------------------- meshes
def perturb(mesh, amount, seed):
    '''Move vertices that are not on the boundary of the bounding box'''
    if not amount:
        return mesh
    r = rng_of('perturb', seed)
    x = mesh.coordinates()
    lo, hi = x.min(axis=0), x.max(axis=0)
    h = mesh.hmin()
    for i in range(len(x)):
        d = r.uniform(-1, 1, x.shape[1])
        # Vertices of the boundary slide along it
        stuck = np.logical_or(np.abs(x[i]-lo) < 1e-10, np.abs(x[i]-hi) < 1e-10)
        if np.any(stuck):
            continue
        x[i] += amount*h*d
    mesh.bounding_box_tree().build(mesh) if False else None
    return mesh


def make_mesh(s):
    kind = s['m']
    n = s.get('n', 3)
    if kind == 'sq':
        m = df.UnitSquareMesh(n, s.get('k', n), s.get('diag', 'right'))
    elif kind == 'rect':
        m = df.RectangleMesh(df.Point(*s['lo']), df.Point(*s['hi']), n, s.get('k', n), s.get('diag', 'right'))
    elif kind == 'cube':
        m = df.UnitCubeMesh(n, s.get('k', n), s.get('l', n))
    elif kind == 'box':
        m = df.BoxMesh(df.Point(*s['lo']), df.Point(*s['hi']), n, s.get('k', n), s.get('l', n))
    elif kind == 'int':
        m = df.IntervalMesh(n, s.get('a', 0.), s.get('b', 1.))
        if s.get('pert'):
            r = rng_of('int', s['pert'])
            x = m.coordinates()
            h = (s.get('b', 1.) - s.get('a', 0.))/n
            x[1:-1, 0] += 0.3*h*r.uniform(-1, 1, n-1)
        return m
    else:
        raise Harness('mesh kind %r' % kind)
    m = perturb(m, s.get('amount', 0), s.get('pert', 0))
    if s.get('squeeze'):
        m.coordinates()[:, 1] *= s['squeeze']
    if s.get('skew'):
        x = m.coordinates()
        x[:, 1] += s['skew']*x[:, 0]
    return m


def facet_kinds(mesh, dim):
    '''entity index -> list of connected cells (as dolfin numbers entities)'''
    tdim = mesh.topology().dim()
    mesh.init(dim)
    mesh.init(dim, tdim)
    e2c = mesh.topology()(dim, tdim)
    return [len(e2c(e)) for e in range(mesh.num_entities(dim))]


def entity_midpoints(mesh, dim):
    mesh.init(dim, 0)
    e2v = mesh.topology()(dim, 0)
    x = mesh.coordinates()
    return np.array([x[e2v(e)].mean(axis=0) for e in range(mesh.num_entities(dim))])


def mark_entities(mesh, s):
    '''
    MeshFunction with tags by s: {dim, seed, ntags, where: int|ext|any, density}
    Tags are 1..ntags each used by at least one entity.
    '''
    dim, ntags = s['dim'], s.get('ntags', 1)
    r = rng_of('mark', s['seed'], dim)
    tdim = mesh.topology().dim()
    f = df.MeshFunction('size_t', mesh, dim, 0)
    ncells = facet_kinds(mesh, dim) if dim < tdim else [1]*mesh.num_cells()
    if dim == tdim - 1:
        ok = {'int': lambda n: n == 2, 'ext': lambda n: n == 1, 'any': lambda n: True}[s.get('where', 'any')]
        pool = [e for e, n in enumerate(ncells) if ok(n)]
    else:
        pool = list(range(len(ncells)))
    # Entities are drawn through their geometry, not their number
    mid = entity_midpoints(mesh, dim)
    if s.get('plane') is not None:
        ax, val = s['plane']
        pool = [e for e in pool if abs(mid[e][ax] - val) < 1e-9 and
                np.all(np.abs(mesh.coordinates()[mesh.topology()(dim, 0)(e)][:, ax] - val) < 1e-9)]
    pool.sort(key=lambda e: tuple(np.round(mid[e], 9)))
    if not pool:
        raise Harness('nothing to mark')
    take = max(ntags, int(round(s.get('density', 0.5)*len(pool))))
    take = min(take, s.get('max', 14), len(pool))
    pick = [pool[i] for i in r.permutation(len(pool))[:take]]
    values = f.array()
    for i, e in enumerate(pick):
        values[e] = 1 + (i if i < ntags else r.randint(ntags)) % ntags
    values[:] = values
    return f


# -------------------------------------------------------------------- elements
def elm(key, cell):
    P = lambda fam, k: df.FiniteElement(fam, cell, k)
    if key == 'VDLT':
        return df.VectorElement(elm('DLT', cell))
    if key[0] == 'V' and key[1:] in ('P1', 'P2', 'P3', 'D0', 'D1', 'CR'):
        return df.VectorElement(elm(key[1:], cell))
    if key == 'TP1':
        return df.TensorElement(P('Lagrange', 1))
    if key == 'TD0':
        return df.TensorElement(P('Discontinuous Lagrange', 0))
    if key == 'MIX':
        return df.MixedElement([df.VectorElement(P('Lagrange', 2)), P('Lagrange', 1)])
    if key == 'MX1':
        return df.MixedElement([P('Lagrange', 1), P('Discontinuous Lagrange', 0)])
    if key == 'R':
        return P('Real', 0)
    fam, k = {'P': ('Lagrange', None), 'D': ('Discontinuous Lagrange', None), 'CR': ('Crouzeix-Raviart', 1),
              'RT': ('Raviart-Thomas', None), 'N': ('Nedelec 1st kind H(curl)', None),
              'BD': ('Brezzi-Douglas-Marini', None), 'B': ('Bubble', None),
              'DLT': ('HDiv Trace', 0)}[key.rstrip('0123456789')]
    return P(fam, int(key[len(key.rstrip('0123456789')):]) if k is None else k)


def vs_of(key, gdim):
    if key[0] == 'V':
        return gdim
    if key in ('TP1', 'TD0'):
        return gdim**2
    if key == 'MIX':
        return gdim + 1
    if key == 'MX1':
        return 2
    if key.rstrip('0123456789') in ('RT', 'N', 'BD'):
        return gdim
    return 1


def components(expr):
    '''Scalar pieces of UFL expression in row-major order'''
    shape = expr.ufl_shape
    if shape == ():
        return [expr]
    return [expr[i] for i in np.ndindex(*shape)] if len(shape) > 1 else [expr[i] for i in range(shape[0])]


COEF = [1.0, -0.5, 0.75, 2.0, -1.25, 0.5, 1.5, -2.0, 0.25]


def contract(A, B):
    '''A:B if same shape; otherwise linear combinations of components'''
    if A.ufl_shape == B.ufl_shape:
        return df.inner(A, B)
    a = sum(c*e for c, e in zip(COEF, components(A)))
    b = sum(c*e for c, e in zip(COEF, components(B)))
    return a*b


def contract_num(a, sa, b, sb):
    if sa == sb:
        return float(np.dot(a, b))
    return float(np.dot(COEF[:len(a)], a))*float(np.dot(COEF[:len(b)], b))


def star_points(w):
    return lambda mesh: np.einsum('j,ijk->ik', w[:mesh.cells().shape[1]]/w[:mesh.cells().shape[1]].sum(), mesh.coordinates()[mesh.cells()])


# ----------------------------------------------------------------------- world
class World:
    def __init__(self, spec, sim):
        self.spec, self.sim = spec, sim
        self._mesh, self._space, self._fun, self._mark, self._misc = {}, {}, {}, {}, {}

    def mesh(self, name):
        if name in self._mesh:
            return self._mesh[name]
        s = self.spec['mesh'][name]
        if 'm' in s:
            m = make_mesh(s)
        else:
            m = self.derived(name, s)
        self._mesh[name] = m
        self.sim.event('mesh', name, m.num_vertices(), m.num_cells())
        return m

    def derived(self, name, s):
        kind = s['g']
        if kind == 'emb':         # EmbeddedMesh of marked entities
            f = self.marking(s['mark'])
            tags = s['tags']
            return xii.EmbeddedMesh(f, tags if not s.get('set') else set(tags))
        if kind == 'bdry':        # dolfin's boundary mesh: no map
            return df.BoundaryMesh(self.mesh(s['mesh']), 'exterior')
        if kind == 'copy':        # Embedded mesh stripped of its maps
            f = self.marking(s['mark'])
            e = xii.EmbeddedMesh(f, s['tags'])
            m = df.Mesh(e)
            return m
        if kind == 'line':
            from xii.meshing.generation import StraightLineMesh
            return StraightLineMesh(np.array(s['a'], dtype=float), np.array(s['b'], dtype=float), s['n'])
        if kind == 'sheet':       # Part of a plane
            from meshes import build
            m = df.UnitSquareMesh(s['n'], s['k'])
            a, b, c = (np.array(s[i], dtype=float) for i in 'abc')
            return build(np.array([a + x*b + y*c for x, y in m.coordinates()]), m.cells(), 2)
        if kind == 'sub':         # EmbeddedMesh of cells
            f = self.marking(s['mark'])
            return xii.EmbeddedMesh(f, s['tags'])
        if kind == 'subold':      # SubDomainMesh of cells
            return xii.SubDomainMesh(self.marking(s['mark']), s['tags'])
        if kind == 'refine':
            return df.refine(self.mesh(s['mesh']))
        if kind == 'star':        # Each cell is split at its interior point, which is up to the caller
            from xii.meshing.refinement import inner_point_refine
            return inner_point_refine(self.mesh(s['mesh']), star_points(np.array(s['w'], dtype=float)), 1e-10, s.get('nrefs', 1))
        if kind == 'centroid':
            return __import__('xii.meshing.refinement', fromlist=['x']).centroid_refine(self.mesh(s['mesh']), nrefs=s.get('nrefs', 1))
        raise Harness('mesh kind %r' % kind)

    def marking(self, name):
        if name not in self._mark:
            s = self.spec['mark'][name]
            m = self.mesh(s['mesh'])
            if s.get('half') is not None:
                ax, val = s['half']
                f = df.MeshFunction('size_t', m, m.topology().dim(), 0)
                mid = entity_midpoints(m, m.topology().dim())
                f.array()[:] = np.where(mid[:, ax] < val, 1, 2)
            else:
                f = mark_entities(m, s)
            self._mark[name] = f
        return self._mark[name]

    def space(self, mesh, key):
        k = (mesh, key)
        if k not in self._space:
            m = self.mesh(mesh)
            self._space[k] = df.FunctionSpace(m, elm(key, m.ufl_cell()))
        return self._space[k]

    def vs(self, mesh, key):
        return vs_of(key, self.mesh(mesh).geometry().dim())

    def fun(self, mesh, key, idx=0):
        '''Coefficient number idx in the space'''
        k = (mesh, key, idx)
        if k not in self._fun:
            V = self.space(mesh, key)
            f = df.Function(V)
            f.vector().set_local(rng_of('fun', k).uniform(-1, 1, V.dim()))
            f.vector().apply('insert')
            self._fun[k] = f
        return self._fun[k]

    def vec(self, mesh, key, idx=0):
        return self.fun(mesh, key, idx).vector().get_local()

    def probe(self, mesh, key, *tag):
        V = self.space(mesh, key)
        return rng_of('probe', mesh, key, tag).uniform(-1, 1, V.dim())

    def normal(self, gamma, bulk, idx=0):
        '''
        DG0 unit normal on the facet mesh: outward on the boundary of bulk,
        arbitrary sign inside. -> Function
        '''
        k = ('normal', gamma, bulk, idx)
        if k not in self._misc:
            m = self.mesh(gamma)
            V = df.VectorFunctionSpace(m, 'DG', 0)
            n = df.Function(V)
            gm, gb = geo(m), geo(self.mesh(bulk))
            table = gb.entities(gm.tdim)
            r = rng_of(k)
            vals = n.vector().get_local()
            cellwise = np.zeros((len(gm.cells), gm.gdim))
            for c, vs in enumerate(gm.cells):
                X = gm.x[vs]
                if gm.gdim == 2:
                    t = X[1] - X[0]
                    nn = np.array([t[1], -t[0]])
                else:
                    nn = np.cross(X[1]-X[0], X[2]-X[0])
                nn = nn/np.linalg.norm(nn)
                cs = table.get(Geo.key(X), [])
                if len(cs) == 1:
                    out = X.mean(axis=0) - gb.x[gb.cells[cs[0]]].mean(axis=0)
                    nn = nn if out @ nn > 0 else -nn
                elif r.rand() < 0.5:
                    nn = -nn
                cellwise[c] = nn
                dofs = [V.sub(i).dofmap().cell_dofs(c)[0] for i in range(gm.gdim)]
                vals[dofs] = nn
            n.vector().set_local(vals)
            n.vector().apply('insert')
            self._misc[k] = (n, cellwise)
        return self._misc[k]


# ------------------------------------------------------------------- utilities
def to_array(A, what='result'):
    '''Matrix-like or vector-like dolfin/PETSc thing to numpy'''
    if isinstance(A, (df.PETScMatrix, df.Matrix, df.cpp.la.GenericMatrix)):
        return A.array()
    if isinstance(A, (df.PETScVector, df.Vector, df.cpp.la.GenericVector)):
        return A.get_local()
    raise Violation('bad-type', '%s is %s' % (what, type(A)))
