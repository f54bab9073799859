'''
Reduction operators of a world: how a term is marked through the public API of
fenics_ii (mark, measure) and what it means (field), see refmodel.
'''
import numpy as np
import dolfin as df
import xii
from refmodel import (geo, Geo, Tab, FE, Via, Const, Fn, Lagrange, codim_pick, integrate)
from sim import Harness
from world import elm, vs_of, rng_of


class Red:
    def __init__(self, w, name, s):
        self.w, self.name, self.s = w, name, s
        self.bulk, self.gamma = s['bulk'], s['gamma']

    # Mesh over which the integral is taken
    @property
    def mesh(self):
        return self.w.mesh(self.gamma)

    def tags_of(self, tags):
        '''Cells of gamma by value of its marking function'''
        mf = self.marking()
        return [c for c in range(self.mesh.num_cells()) if mf[c] in tags]

    def marking(self):
        return self.mesh.marking_function.array()

    def cells(self, tags):
        return None if tags is None else self.tags_of(tags)

    def other(self, spec, vec):
        '''Function that is not reduced, seen in the integral'''
        return FE(self.w.space(*spec), vec)

    def measure(self, tags=None, deg=None):
        kw = {} if deg is None else {'metadata': {'quadrature_degree': deg}}
        if tags is None:
            return df.Measure('dx', domain=self.mesh, **kw)
        m = df.Measure('dx', domain=self.mesh, subdomain_data=self.mesh.marking_function, **kw)
        return m(tuple(tags)) if len(tags) > 1 else m(tags[0])

    def vs(self, key):
        '''Value size of the reduced thing'''
        return vs_of(key, self.w.mesh(self.bulk).geometry().dim())

    def shape(self, key):
        V = self.w.space(self.bulk, key)
        return V.ufl_element().value_shape()

    def mark(self, v):
        raise NotImplementedError

    def field(self, key, vec):
        raise NotImplementedError

    def inputs(self):
        '''Arrays that assembling must not change'''
        return {}


# ---------------------------------------------------------------------- trace
class TraceRed(Red):
    '''
    s: bulk, gamma, restr '', '+', '-', normal idx, tag None or list (the tags
    of the marking function on which the trace is defined), conf: bool
    '''
    def mark(self, v):
        s = self.s
        kw = {}
        if s.get('restr'):
            kw.update(restriction=s['restr'], normal=self.w.normal(self.gamma, self.bulk, s.get('normal', 0))[0])
        if s.get('tag') is not None:
            t = s['tag']
            kw['tag'] = t[0] if (len(t) == 1 and not s.get('tagset')) else tuple(t)
        return xii.Trace(v, self.mesh, **kw)

    def picks(self):
        '''cell of gamma -> [(cell of bulk, weight)]'''
        if not hasattr(self, '_pick'):
            bulk = self.w.mesh(self.bulk)
            table = codim_pick(bulk, self.mesh, strict=self.s.get('strict', True))
            restr = self.s.get('restr')
            gb, gg = geo(bulk), geo(self.mesh)
            normal = self.w.normal(self.gamma, self.bulk, self.s.get('normal', 0))[1] if restr else None
            out = {}
            for c, cells in table.items():
                if not restr or (restr in ('avg', 'jump') and len(cells) == 1):
                    out[c] = [(cells[0], 1.)]
                    continue
                X = gg.x[gg.cells[c]].mean(axis=0)
                # Plus: the side the normal points out of
                side = {('+' if (X - gb.x[gb.cells[k]].mean(axis=0)) @ normal[c] > 0 else '-'): k for k in cells}
                if restr == 'avg':
                    out[c] = [(side['+'], 0.5), (side['-'], 0.5)]
                elif restr == 'jump':
                    out[c] = [(side['+'], 1.), (side['-'], -1.)]
                elif restr in side:
                    out[c] = [(side[restr], 1.)]
            self._pick = out
        return self._pick

    def dlt(self, V, vec):
        '''Functions that have just values on facets'''
        gb, gg = geo(self.w.mesh(self.bulk)), geo(self.mesh)
        mesh = self.w.mesh(self.bulk)
        fdim = gg.tdim
        mesh.init(fdim, 0)
        f2v = mesh.topology()(fdim, 0)
        facet = {Geo.key(gb.x[f2v(e)]): e for e in range(mesh.num_entities(fdim))}
        subs = [V] if V.num_sub_spaces() == 0 else [V.sub(i) for i in range(V.num_sub_spaces())]
        dofs = [U.dofmap().entity_dofs(mesh, fdim) for U in subs]
        table = {c: np.array([vec[d[facet[Geo.key(gg.x[vs])]]] for d in dofs]) for c, vs in enumerate(gg.cells)}
        return Fn(lambda c, p: table[c])

    def field(self, key, vec):
        V = self.w.space(self.bulk, key)
        if key in ('DLT', 'VDLT'):
            f = self.dlt(V, vec)
        elif self.s.get('conf', True):
            picks, tab = self.picks(), Tab(V)

            def f(c, p):
                return sum(wt*tab.eval(vec, k, p) for k, wt in picks[c])
            f = Fn(f)
        else:
            # Interpolation in discontinuous Lagrange elements, point by point
            gb, tab = geo(self.w.mesh(self.bulk)), Tab(V)
            zero = np.zeros(tab.vs)

            def g(c, p):
                cells = gb.locate(p)
                return tab.eval(vec, cells[0], p) if len(cells) else zero
            f = Lagrange(self.mesh, V.ufl_element().degree(), g)
        if self.s.get('tag') is not None:
            inside = set(self.tags_of(self.s['tag']))
            z = np.zeros(self.vs(key))
            return Fn(lambda c, p, f=f: f.at(c, p) if c in inside else z)
        return f

    def inputs(self):
        out = {}
        if hasattr(self.mesh, 'marking_function'):
            out['marking ' + self.gamma] = self.mesh.marking_function.array().copy()
        if self.s.get('restr'):
            out['normal ' + self.gamma] = self.w.normal(self.gamma, self.bulk, self.s.get('normal', 0))[0].vector().get_local()
        return out


# -------------------------------------------------------------------- average
def rotation(n):
    '''Rotation taking e_z to n about e_z x n'''
    ez = np.array([0, 0, 1.])
    n = n/np.linalg.norm(n)
    axis = np.cross(ez, n)
    a = np.linalg.norm(axis)
    axis = ez if a < 1e-13 else axis/a
    c = n[2]
    s = np.sqrt(max(1 - c**2, 0))
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return c*np.eye(3) + s*K + (1 - c)*np.outer(axis, axis)


def radius_at(s, x):
    '''Radius function of the plan'''
    if s.get('var'):
        a = s['var']
        return s['R']*(1 + a*np.sin(3*x[0] + 2*x[1] + x[2]))
    return s['R']


def shape_points(s, x, n):
    '''Points, weights, outer normals of the quadrature over the shape at x with normal n'''
    kind, deg = s['shape'], s['deg']
    n = n/np.linalg.norm(n)
    xq, wq = np.polynomial.legendre.leggauss(deg)
    if kind == 'Circle':
        R = radius_at(s, x)
        Q = rotation(n)
        pts = np.array([x + R*(Q @ np.array([np.cos(np.pi*t), np.sin(np.pi*t), 0])) for t in xq])
        return pts, wq*R*np.pi, (pts - x)/R
    if kind == 'Disk':
        from xii.assembler.disk_quadrature import disk_quadrature
        xq, wq = disk_quadrature(deg)
        R = radius_at(s, x)
        Q = rotation(n)
        return np.array([x + R*(Q @ np.r_[t, 0]) for t in xq]), np.asarray(wq)*R**2, None
    # Corner of the square: perpendicular to n
    P = corner_at(s, x)
    d = P - x
    e = np.cross(n, d)
    corners = [P, x + e, x - d, x - e]       # P, A, opposite, C going around
    if kind == 'SquareRim':
        pts, ws = [], []
        L = np.linalg.norm(corners[1] - corners[0])
        for t, w in zip(xq, wq):
            for a, b in zip(corners, corners[1:] + corners[:1]):
                pts.append(0.5*a*(1-t) + 0.5*b*(1+t))
                ws.append(0.5*L*w)
        return np.array(pts), np.array(ws), None
    if kind == 'Square':
        u, v = corners[1] - P, corners[3] - P
        L = np.linalg.norm(v)
        pts, ws = [], []
        for t, w in zip(xq, wq):
            for r, q in zip(xq, wq):
                pts.append(P + 0.5*u*(1+t) + 0.5*v*(1+r))
                ws.append(w*q*L*L/4)
        return np.array(pts), np.array(ws), None
    raise Harness(kind)


def disk_moment(a, b):
    '''Integral of x^a*y^b over the unit disk'''
    if a % 2 or b % 2:
        return 0.
    from math import gamma
    return 2*gamma((a + 1)/2)*gamma((b + 1)/2)/gamma((a + b + 2)/2)/(a + b + 2)


def corner_at(s, x):
    '''Corner at distance R from x; the line must be parallel to axis s['axis']'''
    ax = s['axis']
    a, b = [(1, 2), (0, 2), (0, 1)][ax]
    d = np.zeros(3)
    t = s.get('angle', 0.7)
    R = radius_at(s, x)
    d[a], d[b] = R*np.cos(t), R*np.sin(t)
    return x + d


def make_shape(s, callback=None):
    from xii.assembler.average_shape import Circle, Disk, Square, SquareRim
    kind, deg = s['shape'], s['deg']
    if kind in ('Circle', 'Disk'):
        cls = {'Circle': Circle, 'Disk': Disk}[kind]
        if not s.get('var') and callback is None:
            return cls(s['R'], deg)

        def radius(x):
            if callback is not None:
                callback()
            return radius_at(s, x)
        return cls(radius, deg)
    cls = {'Square': Square, 'SquareRim': SquareRim}[kind]

    def corner(x):
        if callback is not None:
            callback()
        return corner_at(s, x)
    return cls(corner, deg)


class AverageRed(Red):
    '''s: bulk (3d), gamma (1d), shape spec or None for the 3d-1d trace'''
    def the_shape(self):
        if not hasattr(self, '_shape'):
            self._shape = None if self.s['shape'] is None else make_shape(self.s, self.hook if self.s.get('hooked') else None)
        return self._shape

    def hook(self):
        '''Called from the shape function while the operator is being built'''
        f = getattr(self, 'on_callback', None)
        if f is not None:
            f()

    def mark(self, v):
        return xii.Average(v, self.mesh, self.the_shape())

    def mean(self, tab, vec, flux=False):
        gb, gg = geo(self.w.mesh(self.bulk)), geo(self.mesh)

        def g(c, x):
            X = gg.x[gg.cells[c]]
            n = X[0] - X[1]
            pts, ws, nn = shape_points(self.s, x, n)
            total = 0.
            for i, (p, wt) in enumerate(zip(pts, ws)):
                cells = gb.locate(p)
                if len(cells):
                    val = tab.eval(vec, cells[0], p)
                    total = total + wt*((val @ nn[i]) if flux else val)
            return (total + np.zeros(1 if flux else tab.vs))/sum(ws)
        return g

    def field(self, key, vec):
        V = self.w.space(self.bulk, key)
        tab = Tab(V)
        k = V.ufl_element().degree()
        if self.s['shape'] is None:
            gb = geo(self.w.mesh(self.bulk))
            return Lagrange(self.mesh, k, lambda c, x: tab.eval(vec, gb.locate(x)[0], x))
        return Lagrange(self.mesh, k, self.mean(tab, vec))


class FluxRed(AverageRed):
    def mark(self, v):
        return xii.FluxAverage(v, self.mesh, self.the_shape())

    def vs(self, key):
        return 1

    def shape(self, key):
        return ()

    def field(self, key, vec):
        V = self.w.space(self.bulk, key)
        return Lagrange(self.mesh, V.ufl_element().degree(), self.mean(Tab(V), vec, flux=True))


# --------------------------------------------------------- between volume meshes
class RestrictionRed(Red):
    '''bulk: big mesh, gamma: mesh of some of its cells'''
    def mark(self, v):
        return xii.Restriction(v, self.mesh)

    def field(self, key, vec):
        V = self.w.space(self.bulk, key)
        table = codim_pick(self.w.mesh(self.bulk), self.mesh)
        return Via(V, vec, lambda c, p: table[c][0])


class InjectionRed(Red):
    '''bulk: coarse mesh, gamma: refined mesh'''
    def mark(self, v):
        m = self.s.get('method', 'interpolate')
        return xii.Injection(v, self.mesh, not_nested_method=m)

    def field(self, key, vec):
        V = self.w.space(self.bulk, key)
        tab = Tab(V)
        gc, gf = geo(self.w.mesh(self.bulk)), geo(self.mesh)
        # Nested: center of the fine cell is inside of its coarse cell
        parent = {c: gc.locate(gf.x[vs].mean(axis=0))[0] for c, vs in enumerate(gf.cells)}
        return Fn(lambda c, p: tab.eval(vec, parent[c], p))


class TransposeRed(Red):
    '''
    Function of the facet mesh s['bulk'] used in the integrals over (exterior)
    facets of the mesh s['gamma'] where s['facets'] has s['tags'].
    '''
    @property
    def mesh(self):
        return self.w.mesh(self.bulk)

    def mark(self, v):
        kw = {'full_mesh': self.w.mesh(self.gamma)} if self.s.get('full') else {}
        return xii.TransposeTrace(v, self.mesh, **kw)

    def measure(self, tags=None, deg=None):
        f = self.w.marking(self.s['facets'])
        m = df.Measure('ds', domain=self.w.mesh(self.gamma), subdomain_data=f)
        tags = self.s['tags']
        return m(tuple(tags)) if len(tags) > 1 else m(tags[0])

    def cells(self, tags):
        return self.tags_of(self.s['tags'])

    def other(self, spec, vec):
        if spec[0] == self.bulk:
            return FE(self.w.space(*spec), vec)
        table = codim_pick(self.w.mesh(self.gamma), self.mesh)
        return Via(self.w.space(*spec), vec, lambda c, p: table[c][0])

    def field(self, key, vec):
        return FE(self.w.space(self.bulk, key), vec)


# ---------------------------------------------------------------- to one number
class PointRed(Red):
    '''1d mesh; value (gradient along tangent) at vertex seen from cell'''
    def where(self):
        m = self.mesh
        c = self.s['cell'] % m.num_cells()
        v = int(m.cells()[c][self.s['local'] % 2])
        return v, c

    def tangent(self):
        k = ('tangent', self.name)
        if k in self.w._misc:         # Constant, its value might have changed
            return np.array(self.w._misc[k].values())
        return rng_of('tangent', self.s.get('tangent', 0)).uniform(-1, 1, self.mesh.geometry().dim())

    def mark(self, v):
        point, cell = self.where()
        if self.s['fam'] == 'gpoint':
            t = self.tangent()
            kind = self.s.get('tkind', 'array')
            if kind == 'constant':
                k = ('tangent', self.name)
                if k not in self.w._misc:
                    self.w._misc[k] = df.Constant(tuple(t)) if len(t) > 1 else df.Constant((t[0], ))
                t = self.w._misc[k]
            return xii.GradientPointTrace(v, point=point, cell=cell, tangent=tuple(t) if kind == 'tuple' else t)
        return xii.PointTrace(v, point=point, cell=cell)

    def field(self, key, vec):
        V = self.w.space(self.bulk, key)
        tab = Tab(V)
        v, c = self.where()
        x = geo(self.mesh).x[v]
        if self.s['fam'] == 'gpoint':
            return Const(tab.grad(vec, c, x)[0] @ self.tangent())
        return Const(tab.eval(vec, c, x))


class MeanRed(Red):
    '''v -> int v*weight*measure as a constant on the mesh where v lives'''
    def parts(self):
        s = self.s
        weight = None
        if s.get('weight') == 'const':
            k = ('meanw', self.name)
            if k not in self.w._misc:
                self.w._misc[k] = df.Constant(s['c'])
            weight = self.w._misc[k]
        elif s.get('weight'):
            weight = self.w.fun(self.bulk, s['weight'], s.get('idx', 0))
        tags = s.get('tags')
        measure = None
        if tags is not None:
            k = ('meanm', self.name)
            if k not in self.w._misc:
                f = self.w.marking(s['cells'])
                m = df.Measure('dx', domain=self.w.mesh(self.bulk), subdomain_data=f)
                self.w._misc[k] = m(tuple(tags)) if len(tags) > 1 else m(tags[0])
            measure = self.w._misc[k]
        return weight, measure

    def mark(self, v):
        weight, measure = self.parts()
        return xii.Mean(v, weight=weight, measure=measure)

    def measure(self, tags=None, deg=None):
        return df.Measure('dx', domain=self.mesh)

    def field(self, key, vec):
        s = self.s
        V = self.w.space(self.bulk, key)
        u = FE(V, vec)
        cells = None
        if s.get('tags') is not None:
            mf = self.w.marking(s['cells']).array()
            cells = [c for c in range(self.mesh.num_cells()) if mf[c] in s['tags']]
        if s.get('weight') == 'const':
            wt = Const(float(self.w._misc['meanw', self.name]))
        elif s.get('weight'):
            wt = FE(self.w.space(self.bulk, s['weight']), self.w.vec(self.bulk, s['weight'], s.get('idx', 0)))
        else:
            wt = Const(1.)
        val, _ = integrate(self.mesh, lambda c, p: u.at(c, p)[0]*wt.at(c, p)[0], cells, lo=True)
        return Const(val)


class SurfaceMeanRed(TraceRed):
    def mark(self, v):
        return xii.SurfaceMean(v, self.mesh)

    def field(self, key, vec):
        f = TraceRed.field(self, key, vec)
        val, _ = integrate(self.mesh, lambda c, p: f.at(c, p)[0], lo=True)
        return Const(val/sum(geo(self.mesh).vol))


class PatchRed(Red):
    '''
    Means over patches of cells: gamma 1d mesh with a function vertex_f whose
    dofs hold the color of a patch (0: none), patch_f colors of cells of bulk
    '''
    def parts(self):
        k = ('patch', self.name)
        if k not in self.w._misc:
            s = self.s
            vf, colors = self.vertex_f()
            if s.get('dirac'):
                self.w._misc[k] = (vf, None, None, colors, None)
            else:
                pf = self.patch_f()
                group = self.groups(pf) if s.get('coloring') else None
                self.w._misc[k] = (vf, pf, group, colors, pf.array().copy())
        return self.w._misc[k]

    def vertex_f(self):
        '''These, and patches, can be shared by several operators'''
        s = self.s
        seed, n = s.get('vseed', s['seed']), s['ncolors']
        k = ('vertex_f', self.gamma, s['velm'], seed, n)
        if k not in self.w._misc:
            V = self.w.space(self.gamma, s['velm'])
            vf, r = df.Function(V), rng_of('patchv', seed)
            if seed % 2:
                # One row for each color, or several
                colors = np.zeros(V.dim())
                where = r.permutation(V.dim())[:n]
                colors[where] = 1 + np.arange(len(where))
            else:
                colors = r.randint(0, n+1, V.dim()).astype(float)
            vf.vector().set_local(colors)
            vf.vector().apply('insert')
            self.w._misc[k] = vf, colors
        return self.w._misc[k]

    def patch_f(self):
        s = self.s
        seed, n = s.get('pseed', s['seed']), s['ncolors']
        k = ('patch_f', self.bulk, seed, n)
        if k not in self.w._misc:
            bulk, r = self.w.mesh(self.bulk), rng_of('patchf', seed)
            pf = df.MeshFunction('size_t', bulk, bulk.topology().dim(), 0)
            geom = geo(bulk)
            if seed % 2:
                mids = geom.x[geom.cells].mean(axis=1)[:, seed//2 % geom.gdim]
                lo, hi = geom.x.min(), geom.x.max()
                p = 1 + np.clip(np.floor((mids-lo)/(hi-lo)*n*0.999).astype(int), 0, n-1)
                p = r.permutation(n)[p-1] + 1
            else:
                p = r.randint(0, n+1, len(geom.cells))
            # Every patch has some cells
            for c in range(1, n+1):
                if c not in p:
                    many = [i for i in range(len(p)) if p[i] == 0 or (p == p[i]).sum() > 1]
                    p[many[r.randint(len(many))]] = c
            pf.array()[:] = p
            self.w._misc[k] = pf
        return self.w._misc[k]

    def groups(self, pf):
        '''Patches in the group have no vertex in common'''
        geom, p, n = geo(self.w.mesh(self.bulk)), pf.array(), self.s['ncolors']
        verts = {c: set(geom.cells[p == c].flatten()) for c in range(1, n+1)}
        group = {}
        for c in rng_of('group', self.s['seed']).permutation(n) + 1:
            taken = {group[d] for d in group if verts[d] & verts[c]}
            group[int(c)] = min(set(range(n)) - taken)
        return group

    def mark(self, v):
        vf, pf, group, _, _ = self.parts()
        return xii.CellPatchAverage(v, vf, pf, patch_coloring=group)

    def measure(self, tags=None, deg=None):
        return df.Measure('dx', domain=self.mesh)

    def field(self, key, vec):
        s = self.s
        V = self.w.space(self.bulk, key)
        _, _, _, colors, patches = self.parts()
        Q = self.w.space(self.gamma, s['velm'])
        if s.get('dirac'):
            tab, gb = Tab(V), geo(self.w.mesh(self.bulk))
            xs = Q.tabulate_dof_coordinates().reshape((Q.dim(), -1))
            out = np.array([tab.eval(vec, gb.locate(x)[0], x)[0] for x in xs])
            return FE(Q, out)
        g = geo(self.w.mesh(self.bulk))
        u = FE(V, vec)
        means = {}
        for c in sorted(set(colors)):
            if c == 0:
                means[c] = 0.
                continue
            cells = np.where(patches == c)[0]
            val, _ = integrate(self.w.mesh(self.bulk), lambda k, p: u.at(k, p)[0], cells, lo=True)
            means[c] = val/g.vol[cells].sum()
        return FE(Q, np.array([means[c] for c in colors]))

    def inputs(self):
        vf, pf, _, _, _ = self.parts()
        out = {'vertex_f ' + self.name: vf.vector().get_local()}
        if pf is not None:
            out['patch_f ' + self.name] = pf.array().copy()
        return out


FAMILIES = {'trace': TraceRed, 'average': AverageRed, 'flux': FluxRed, 'restriction': RestrictionRed,
            'injection': InjectionRed, 'transpose': TransposeRed, 'point': PointRed, 'gpoint': PointRed,
            'mean': MeanRed, 'surfmean': SurfaceMeanRed, 'patch': PatchRed}


def make_red(w, name):
    s = w.spec['red'][name]
    return FAMILIES[s['fam']](w, name, s)
