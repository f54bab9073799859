'''Normals, tangents and centers'''
from meshes import *

POINTS = ['None', 'inside', 'outside', 'array', 'constant', 'field', 'field']


def plan(rng, tier):
    ops = [gen_mark(rng, codim=1, how=rng.choice(['bdry', 'random'])), gen_mark(rng, codim=0, how=rng.choice(['strips', 'random'])),
           gen_mark(rng, codim=1, how='bdry'), dict(embed(rng), op='call'), dict(embed(rng), op='call')]

    def call():
        k = rng.random()
        if k < 0.5:
            return {'do': 'normal', 'i': rng.randrange(1000), 'by': rng.choice(['point', 'mesh', 'cells', 'cells', 'facetnormal']),
                    'how': rng.choice(POINTS), 'inner': rng.random() < 0.3, 'f': rng.randrange(100), 'seed': rng.randrange(10**6)}
        if k < 0.62:
            return {'do': 'tangent', 'i': rng.randrange(100), 'root': rng.random() < 0.6, 'r': rng.randrange(100)}
        if k < 0.72:
            return {'do': 'oriented', 'f': rng.randrange(100), 'as': rng.choice(['mf', 'fun', 'given'])}
        if k < 0.78:
            return {'do': 'constant', 'f': rng.randrange(100)}
        return {'do': 'center', 'on': rng.randrange(100), 'what': rng.choice(['CellCentroid', 'FacetCentroid', 'CentroidDistance', 'CentroidDistance2',
                                                                             'CellCircumcenter', 'CircumDistance', 'CircumDistance2'])}

    for _ in range(rng.randint(12, 20)):
        k = rng.random()
        if k < 0.16:
            ops.append(gen_mark(rng, codim=rng.choice([0, 1, 1]), how=rng.choice(['random', 'bdry', 'strips'])))
        elif k < 0.3:
            ops.append(dict(embed(rng), op='call'))
        elif k < 0.76:
            ops.append(decorate(rng, call()))
        elif k < 0.81:
            ops.append(dict(gen_embedding(rng), op='embedding'))
        elif k < 0.85:
            ops.append({'op': 'remark', 'f': rng.randrange(100), 'seed': rng.randrange(10**6)})
        elif k < 0.93:
            ops.append(gen_par(rng, call))
        elif k < 0.97:
            ops.append({'op': 'scribble', 'i': rng.randrange(100)})
        else:
            ops.append({'op': 'gc'})
    meshes = gen_meshes(rng, ('sq', 'sq', 'cube', 'lines'))
    for m in meshes:        # Most facets have a cell on the mesh
        if m.get('m') in ('sq', 'cube'):
            m['n'] = min(m['n'], 3)
    return {'meshes': meshes, 'ops': ops}


def embed(rng):
    return dict(gen_embed(rng), cells=rng.random() < 0.1, nonzero=rng.random() < 0.7)


def null(pts):
    '''Unit normal of the simplex of codimension 1'''
    p = np.array(pts)
    return np.linalg.svd(p[1:] - p[0])[2][-1]


class Normals(Meshes):
    def facets(self, t):
        '''facet -> cells which have it'''
        at = ('facets', t.mesh.id())
        if at not in self.memo:
            out = {}
            for c in t.keys():
                for s in combinations(c, t.tdim):
                    out.setdefault(tuple(sorted(s)), []).append(c)
            self.memo[at] = out
        return self.memo[at]

    def outward(self, facet, cell):
        '''Unit normal of the facet which leaves the cell'''
        opposite, = set(cell) - set(facet)
        p = np.array(facet)
        v = np.mean(p, axis=0) - np.array(opposite)
        if len(facet) > 1:      # Part which is orthogonal to the facet
            E = (p[1:] - p[0]).T
            v = v - E @ np.linalg.lstsq(E, v, rcond=None)[0]
        return v/np.linalg.norm(v)

    def by_cell(self, what, n, mesh, size):
        '''cell key -> value of the DG0 function'''
        V = n.function_space()
        self.sim.check(V.mesh().id() == mesh.id(), 'bad-type', '%s: mesh' % what)
        self.sim.check(V.ufl_element().family() == 'Discontinuous Lagrange' and V.ufl_element().degree() == 0 and
                       V.ufl_element().value_shape() == ((size, ) if size else ()), 'bad-type', '%s: %s' % (what, V.ufl_element()))
        a = n.vector().get_local()
        return {k: a[V.dofmap().cell_dofs(i)] for i, k in enumerate(entkeys(mesh, mesh.topology().dim()))}

    def by_facet(self, what, n, mesh, size):
        V = n.function_space()
        self.sim.check(V.mesh().id() == mesh.id(), 'bad-type', '%s: mesh' % what)
        a, d = n.vector().get_local(), mesh.topology().dim()-1
        keys = entkeys(mesh, d)
        if not size:
            dofs = [V.dofmap().entity_dofs(mesh, d)]
        else:
            dofs = [V.sub(i).dofmap().entity_dofs(mesh, d) for i in range(size)]
        self.sim.check(all(len(x) == len(keys) for x in dofs), 'bad-type', '%s: not a function on facets' % what)
        return {k: np.array([a[x[i]] for x in dofs]) for i, k in enumerate(keys)}

    def manifold(self, t):
        return all(len(c) <= 2 for c in self.facets(t).values())

    def do_normal(self, op):
        from xii import OuterNormal, InnerNormal
        by = op['by']
        make, sign = (InnerNormal, -1) if op['inner'] else (OuterNormal, 1)
        if by == 'point':
            e = self.pick([e for e in self.T if e.tdim == e.gdim-1], op['i'])
            if e is None:
                return None
            x = e.mesh.coordinates()
            p, g = x.mean(axis=0), rnd('point', op['seed'])
            if op['how'] == 'inside':
                p = x.min(axis=0) + g.uniform(size=e.gdim)*(x.max(axis=0)-x.min(axis=0))
            elif op['how'] in ('outside', 'array'):
                p = g.uniform(-3, 3, e.gdim)
            arg = {'inside': tuple(p), 'outside': list(p), 'array': np.array(p)}.get(op['how'])
            if op['how'] == 'constant':
                arg = df.Expression(tuple('p%d' % i for i in range(e.gdim)), degree=0, **{'p%d' % i: v for i, v in enumerate(p)})
            toward = (lambda k: p) if op['how'] == 'constant' else (lambda k: np.mean(np.array(k), axis=0) - p)
            what = 'normal by point' if op['how'] != 'constant' else 'normal by direction'
            if op['how'] == 'field':
                # Direction changes along the mesh
                w = g.uniform(2, 8, (e.gdim, e.gdim))
                arg = df.Expression(tuple('cos(p%d + %s)' % (i, ' + '.join('w%d%d*x[%d]' % (i, j, j) for j in range(e.gdim))) for i in range(e.gdim)),
                                    degree=1, **{**{'p%d' % i: v for i, v in enumerate(p)}, **{'w%d%d' % (i, j): w[i, j] for i in range(e.gdim) for j in range(e.gdim)}})
                toward = lambda k: np.cos(p + w @ np.mean(np.array(k), axis=0))
                what = 'normal by field'

            def verify(n):
                for k, v in self.by_cell(what, n, e.mesh, e.gdim).items():
                    want = null(k)
                    s = want @ toward(k)
                    self.sim.check(abs(abs(v @ want) - 1) < 1e-8 and abs(np.linalg.norm(v) - 1) < 1e-8, 'value',
                                   lambda: '%s: %s of %s is not unit normal' % (what, v, k))
                    self.sim.check(abs(s) < 1e-8 or sign*s*(v @ want) > 0, 'value', lambda: '%s: %s of %s has wrong orientation' % (what, v, k))
            self.sim.reach('normal', by, op['how'], e.tdim, e.gdim, op['inner'], bool(e.parents))
            return (lambda: make(e.mesh, arg)), verify, True
        todo = [(e, t) for e in self.T for t in self.T if t.mesh.id() in e.maps and t.mesh.id() not in e.partial and
                e.tdim == t.tdim-1 and t.tdim == t.gdim]
        if by == 'mesh':        # Only for boundary
            todo = [(e, t) for e, t in todo if all(len(self.facets(t)[k]) == 1 for k in e.keys())]
        p = self.pick(todo, op['i'])
        if p is None:
            return None
        e, t = p
        ok = {}
        f = None
        if by == 'cells':
            f = self.pick([f for f in self.F if f.on is t and f.dim == t.tdim], op['f'])
            if f is None:
                return None
            vals = f.vals()
        for k in e.keys():
            cells = self.facets(t)[k]
            if by == 'cells' and len(cells) == 2:
                top = max(vals[c] for c in cells)
                cells = [c for c in cells if vals[c] == top]
            ok[k] = [self.outward(k, c) for c in cells]
        self.sim.reach('normal', by, t.tdim, op['inner'], len(e.maps), e.parents[0] is t, max(map(len, ok.values())), min(map(len, ok.values())))
        arg = {'mesh': lambda: t.mesh, 'cells': lambda: f.f, 'facetnormal': lambda: df.FacetNormal(t.mesh)}[by]
        what = 'normal by %s' % by

        def verify(n):
            for k, v in self.by_cell(what, n, e.mesh, e.gdim).items():
                self.sim.check(any(np.abs(sign*v - w).max() < 1e-8 for w in ok[k]), 'value', lambda: '%s: %s is %s, expected %s' % (
                    what, k, v, ok[k]))
        return (lambda: make(e.mesh, arg())), verify, True

    def do_tangent(self, op):
        from xii import TangentCurve
        e = self.pick([e for e in self.T if e.tdim == 1 and e.gdim > 1 and e.mesh.num_cells() < 60], op['i'])
        if e is None:
            return None
        G = nx.Graph()
        for c in e.mesh.cells():
            G.add_edge(*map(int, c))
        ends = sorted(v for v in G if G.degree(v) == 1)
        tree = nx.is_forest(G)
        root = ends[op['r'] % len(ends)] if ends and op['root'] else None
        x = e.mesh.coordinates()
        self.sim.reach('tangent', e.gdim, tree, min(len(ends), 4), root is not None, nx.number_connected_components(G))

        def away(r):
            return {frozenset(p): x[p[1]] - x[p[0]] for p in nx.dfs_edges(G, r)}

        def verify(t):
            vals = self.by_cell('tangent', t, e.mesh, e.gdim)
            for k, v in vals.items():
                d = np.array(k[1]) - np.array(k[0])
                d = d/np.linalg.norm(d)
                self.sim.check(abs(abs(d @ v) - 1) < 1e-8 and abs(np.linalg.norm(v) - 1) < 1e-8, 'value', lambda: 'tangent %s of %s' % (v, k))
            if not tree or not ends:
                return
            by = {frozenset(map(int, c)): vals[k] for c, k in zip(e.mesh.cells(), e.keys())}
            good = [r for r in ([root] if root is not None else ends) if all(by[c] @ d > 0 for c, d in away(r).items())]
            self.sim.check(good, 'value', 'tangent is not oriented from the root')
        return (lambda: TangentCurve(e.mesh, root) if root is not None else TangentCurve(e.mesh)), verify, True

    def do_oriented(self, op):
        from xii import OrientedFacetNormal
        from xii.meshing.dg_utils import pcws_constant, orient_facet_normal
        f = self.pick([f for f in self.F if f.dim == f.on.tdim and f.dim == f.on.gdim and f.dim > 1], op['f'])
        if f is None:
            return None
        t, vals = f.on, f.vals()
        self.sim.reach('oriented', t.tdim, op['as'])
        call = {'mf': lambda: OrientedFacetNormal(f.f), 'fun': lambda: OrientedFacetNormal(pcws_constant(f.f)),
                'given': lambda: orient_facet_normal(df.FacetNormal(t.mesh), f.f)}[op['as']]

        def verify(n):
            for k, v in self.by_facet('oriented normal', n, t.mesh, t.gdim).items():
                cells = self.facets(t)[k]
                top = max(vals[c] for c in cells)
                ok = [self.outward(k, c) for c in cells if vals[c] == top]
                self.sim.check(any(np.abs(v - w).max() < 1e-8 for w in ok), 'value', lambda: 'oriented normal: %s is %s, expected %s' % (k, v, ok))
        return call, verify, True

    def do_constant(self, op):
        from xii.meshing.dg_utils import pcws_constant
        f = self.pick([f for f in self.F if f.dim == f.on.tdim], op['f'])
        if f is None:
            return None
        vals = f.vals()
        self.sim.reach('constant', f.dim, f.on.gdim)

        def verify(u):
            for k, v in self.by_cell('constant', u, f.on.mesh, 0).items():
                self.sim.check(len(v) == 1 and v[0] == vals[k], 'value', lambda: 'piecewise constant: %s has %s, tag is %s' % (k, v, vals[k]))
        return (lambda: pcws_constant(f.f)), verify, True

    def do_center(self, op):
        from xii.meshing import cell_centers
        what = op['what']

        def fits(t):
            if not self.manifold(t):
                return False
            if what == 'FacetCentroid' or 'Distance' in what:
                # Surfaces where several parts meet are beyond what dolfin integrates over
                if what == 'FacetCentroid' and t.tdim == 1:
                    return t.gdim > 1
                return t.tdim > 1 and t.mesh.num_cells() < 60
            return what == 'CellCentroid' or (t.tdim, t.gdim) in ((2, 2), (2, 3), (3, 3), (1, 2), (1, 3))
        t = self.pick([t for t in self.T if fits(t)], op['on'])
        if t is None:
            return None
        self.sim.reach('center', what, t.tdim, t.gdim, bool(t.parents))

        def center(k):
            p = np.array(k)
            if what.startswith('Ce') and 'Circum' not in what:
                return p.mean(axis=0)
            E = p[1:] - p[0]
            y = np.linalg.solve(E @ E.T, 0.5*np.sum(E**2, axis=1))
            return p[0] + y @ E
        f = lambda: getattr(cell_centers, what)(t.mesh)

        def verify(u):
            if what in ('CellCentroid', 'CellCircumcenter'):
                for k, v in self.by_cell(what, u, t.mesh, t.gdim).items():
                    c = center(k)
                    self.sim.close(v, c, 1 + np.abs(c).max(), 'value', '%s of %s' % (what, k))
                return
            if what == 'FacetCentroid' and t.tdim == 1:
                x = t.mesh.coordinates()
                self.sim.close(u.compute_vertex_values().reshape((t.gdim, -1)).T, x, 1 + np.abs(x).max(), 'value', 'FacetCentroid of a curve')
                return
            if what == 'FacetCentroid':
                for k, v in self.by_facet(what, u, t.mesh, t.gdim).items():
                    self.sim.close(v, np.mean(np.array(k), axis=0), 1, 'value', '%s of %s' % (what, k))
                return
            for k, v in self.by_facet(what, u, t.mesh, 0).items():
                m = np.mean(np.array(k), axis=0)
                c = [center(x) for x in self.facets(t)[k]]
                if len(c) == 2 and not what.endswith('2'):
                    want = np.linalg.norm(c[0] - c[1])
                else:
                    want = sum(np.linalg.norm(x - m) for x in c)
                # Circumcenters can be far away; sqrt loses half of the digits of what is close to 0
                size = 1 + max(np.abs(x).max() for x in c)
                self.sim.close(v, [want], size, 'value', '%s of %s' % (what, k), tol=1e-7)
        return f, verify, True


def run(plan, sim):
    Normals(plan, sim).run()
