'''
Reference model: what the reduction operators of fenics_ii mean, written with
nothing from xii. From dolfin it takes only the tabulation of finite elements
(evaluate_basis), dof maps and mesh coordinates/cells; point location, the
pairing of embedded cells with bulk cells, numerical quadrature and the
operators themselves are done here in numpy.
'''
import numpy as np
import dolfin as df
from itertools import combinations

# ---------------------------------------------------------------- quadrature
_X1, _W1 = np.polynomial.legendre.leggauss(5)
_X1, _W1 = 0.5*(_X1 + 1), 0.5*_W1


def _simplex_rule(d, x=_X1, w=_W1):
    '''Duffy rule on the unit simplex (barycentric points, weights sum to 1)'''
    if d == 0:
        return np.array([[1.]]), np.array([1.])
    if d == 1:
        return np.c_[1-x, x], w.copy()
    if d == 2:
        P, W = [], []
        for a, wa in zip(x, w):
            for b, wb in zip(x, w):
                l0, l1 = a, (1-a)*b
                P.append((1-l0-l1, l0, l1))
                W.append(2*wa*wb*(1-a))
        return np.array(P), np.array(W)
    if d == 3:
        P, W = [], []
        for a, wa in zip(x, w):
            for b, wb in zip(x, w):
                for c, wc in zip(x, w):
                    l0, l1 = a, (1-a)*b
                    l2 = (1-a)*(1-b)*c
                    P.append((1-l0-l1-l2, l0, l1, l2))
                    W.append(6*wa*wb*wc*(1-a)**2*(1-b))
        return np.array(P), np.array(W)
    raise ValueError(d)


RULES = {d: _simplex_rule(d) for d in (0, 1, 2, 3)}
_x4, _w4 = np.polynomial.legendre.leggauss(4)
RULES_LO = {d: _simplex_rule(d, 0.5*(_x4+1), 0.5*_w4) for d in (0, 1, 2, 3)}


def simplex_measure(X):
    '''Measure of a simplex given by vertices (rows)'''
    d = len(X) - 1
    if d == 0:
        return 1.
    E = X[1:] - X[0]
    G = E @ E.T
    return np.sqrt(max(np.linalg.det(G), 0.))/[1, 1, 2, 6][d]


# ------------------------------------------------------------------ geometry
class Geo:
    '''Plain geometric view of a mesh'''
    def __init__(self, mesh):
        self.mesh = mesh
        self.x = mesh.coordinates().copy()
        self.cells = np.array(mesh.cells(), dtype=int)
        self.tdim = mesh.topology().dim()
        self.gdim = mesh.geometry().dim()
        self.vol = np.array([simplex_measure(self.x[c]) for c in self.cells])
        self._ent = {}

    def current(self):
        return np.array_equal(self.x, self.mesh.coordinates())

    @staticmethod
    def key(pts):
        return tuple(sorted(tuple(np.round(p, 9) + 0.) for p in pts))

    def entities(self, d):
        '''(sorted vertex coordinates of a d-entity) -> cells having it'''
        if d not in self._ent:
            table = {}
            for ci, c in enumerate(self.cells):
                for sub in combinations(c, d+1):
                    table.setdefault(self.key(self.x[list(sub)]), []).append(ci)
            self._ent[d] = table
        return self._ent[d]

    def bary(self, ci, p):
        X = self.x[self.cells[ci]]
        T = (X[1:] - X[0]).T
        l, *_ = np.linalg.lstsq(T, p - X[0], rcond=None)
        return np.r_[1 - l.sum(), l]

    def locate(self, p, tol=1e-9):
        '''All cells containing p (for full dimensional meshes)'''
        if not hasattr(self, '_inv'):
            X = self.x[self.cells]
            T = np.transpose(X[:, 1:] - X[:, :1], (0, 2, 1))
            self._inv = np.linalg.inv(T)
            self._x0 = X[:, 0]
        l = np.einsum('cij,cj->ci', self._inv, p - self._x0)
        ok = np.logical_and(l.min(axis=1) > -tol, l.sum(axis=1) < 1 + tol)
        return np.where(ok)[0]

    def margin(self, p):
        '''Signed distance-like: max over cells of the min bary coordinate'''
        self.locate(p)
        l = np.einsum('cij,cj->ci', self._inv, p - self._x0)
        return max(np.minimum(l.min(axis=1), 1 - l.sum(axis=1)))


_GEO = {}


def geo(mesh):
    g = _GEO.get(mesh.id())
    if g is None or g.mesh is not mesh or not g.current():
        g = _GEO[mesh.id()] = Geo(mesh)
    return g


# ------------------------------------------------------------------ FE fields
class Tab:
    '''Evaluation of basis functions of a space, cell by cell'''
    def __init__(self, V):
        self.V = V
        self.mesh = V.mesh()
        self.elm = V.element()
        self.vs = max(1, V.ufl_element().value_size())
        self.dm = V.dofmap()
        self.xs = [np.array(c.get_vertex_coordinates()) for c in df.cells(self.mesh)]
        self.real = V.ufl_element().family() == 'Real' and V.num_sub_spaces() == 0

    def basis(self, ci, p):
        n = self.elm.space_dimension()
        return np.array(self.elm.evaluate_basis_all(np.array(p, dtype=float), self.xs[ci], 0)).reshape((n, self.vs))

    def eval(self, vec, ci, p):
        return vec[self.dm.cell_dofs(ci)] @ self.basis(ci, p)

    def grad(self, vec, ci, p):
        n = self.elm.space_dimension()
        D = np.array(self.elm.evaluate_basis_derivatives_all(1, np.array(p, dtype=float), self.xs[ci], 0))
        D = D.reshape((n, self.vs, self.mesh.geometry().dim()))
        return np.einsum('i,ijk->jk', vec[self.dm.cell_dofs(ci)], D)


class Field:
    '''Something with a value at (cell of the integration mesh, point)'''
    def at(self, ci, p):
        raise NotImplementedError


class FE(Field):
    def __init__(self, V, vec):
        self.tab, self.vec = Tab(V), vec

    def at(self, ci, p):
        return self.tab.eval(self.vec, ci, p)


class Const(Field):
    def __init__(self, value):
        self.value = np.atleast_1d(np.asarray(value, dtype=float)).ravel()

    def at(self, ci, p):
        return self.value


class Fn(Field):
    def __init__(self, f):
        self.at = f


class Via(Field):
    '''FE function on another mesh evaluated through a cell -> cell map'''
    def __init__(self, V, vec, pick):
        self.tab, self.vec, self.pick = Tab(V), vec, pick

    def at(self, ci, p):
        return self.tab.eval(self.vec, self.pick(ci, p), p)


class Lagrange(Field):
    '''Degree k nodal interpolant, cell by cell, of a pointwise defined g(ci, p)'''
    def __init__(self, mesh, k, g):
        self.g, self.k, self.geo, self.memo = g, k, geo(mesh), {}
        d = self.geo.tdim
        if k == 0:
            self.nodes = np.full((1, d+1), 1./(d+1))
        else:
            self.nodes = np.array([np.array(m)/k for m in _multi(d+1, k)])
        # Monomials in barycentric coordinates
        self.powers = [np.array(m) for m in _multi(d+1, k)]
        B = np.array([[np.prod(n**m) for m in self.powers] for n in self.nodes])
        self.Binv = np.linalg.inv(B)

    def at(self, ci, p):
        X = self.geo.x[self.geo.cells[ci]]
        if ci not in self.memo:
            vals = np.array([np.ravel(self.g(ci, n @ X)) for n in self.nodes])
            self.memo[ci] = self.Binv @ vals
        l = self.geo.bary(ci, p)
        phi = np.array([np.prod(l**m) for m in self.powers])
        return phi @ self.memo[ci]


def _multi(n, k):
    if n == 1:
        return [(k, )]
    return [(i, ) + r for i in range(k+1) for r in _multi(n-1, k-i)]


def integrate(mesh, integrand, cells=None, lo=False):
    '''
    (int, int|.|) over cells of mesh of integrand(ci, p) -> number
    '''
    g = geo(mesh)
    P, W = (RULES_LO if lo else RULES)[g.tdim]
    total, scale = 0., 0.
    for ci in (range(len(g.cells)) if cells is None else cells):
        X = g.x[g.cells[ci]]
        for l, w in zip(P, W):
            v = w*g.vol[ci]*integrand(ci, l @ X)
            total += v
            scale += abs(v)
    return total, scale


# ------------------------------------------------------- picking of bulk cells
def codim_pick(bulk, gamma, strict=True):
    '''
    Cells of gamma are d-entities of bulk; ci -> list of bulk cells with that
    entity, by comparing coordinates
    '''
    gb, gg = geo(bulk), geo(gamma)
    table = gb.entities(gg.tdim)
    out = {}
    for ci, c in enumerate(gg.cells):
        hit = table.get(Geo.key(gg.x[c]))
        if hit is None:
            if strict:
                raise KeyError('gamma cell %d is not an entity of the bulk mesh' % ci)
            continue
        out[ci] = hit
    return out
