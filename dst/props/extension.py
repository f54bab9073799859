'''
Extension of functions from lines to surfaces, or other lines. Uniform: the
value is that of the closest dof; harmonic: trace of the solution of a problem
in the bulk which is driven by the function.
'''
from meshes import *
from refmodel import Tab, Lagrange, integrate, geo

SHAPES = {'s': 's', 'v': 'v', 't': 't'}


def plan(rng, tier):
    if rng.random() < 0.25:
        return plan_harmonic(rng)
    gdim = rng.choice([2, 3, 3])
    meshes = []
    for _ in range(rng.randint(1, 2)):
        meshes.append({'m': 'line', 'nodes': rng.randint(2, 4), 'extra': rng.choice([0, 0, 1]), 'seed': rng.randrange(10**6)})
    for _ in range(rng.randint(2, 3)):
        meshes.append({'m': rng.choice(['sheet', 'sheet', 'line']), 'n': rng.randint(1, 3), 'k': rng.randint(1, 3), 'nodes': rng.randint(2, 4),
                       'extra': 0, 'seed': rng.randrange(10**6)})
    ops = []

    def call():
        return {'do': 'extend', 'i': rng.randrange(100), 'j': rng.randrange(100), 'elm': rng.choice(ELMS), 'api': rng.choice(['matrix', 'cached', 'cached']),
                'seed': rng.randrange(10**6)}
    for _ in range(rng.randint(10, 18)):
        k = rng.random()
        if k < 0.7:
            ops.append(decorate(rng, call()))
        elif k < 0.8:
            ops.append(gen_par(rng, call))
        elif k < 0.87:
            ops.append({'op': 'move', 'on': rng.randrange(100), 'seed': rng.randrange(10**6)})
        elif k < 0.95:
            ops.append({'op': 'scribble', 'i': rng.randrange(100)})
        else:
            ops.append({'op': 'gc'})
    return {'gdim': gdim, 'meshes': meshes, 'ops': ops}


def plan_harmonic(rng):
    n = rng.randint(2, 4)
    cols = rng.sample(range(n+1), min(n+1, rng.randint(2, 3)))
    calls = []

    def call():
        return {'do': 'harmonic', 'i': rng.randrange(100), 'j': rng.randrange(100), 'elm': rng.choice([['CG', 1, 's'], ['CG', 1, 's'], ['CG', 2, 's']]), 'aux': rng.randint(0, 1),
                'api': rng.choice(['matrix', 'cached']), 'seed': rng.randrange(10**6)}
    ops = [decorate(rng, call(), p_fault=0.3) for _ in range(rng.randint(3, 5))]
    if rng.random() < 0.3:
        ops.insert(rng.randrange(len(ops)), gen_par(rng, call))
    ops.insert(rng.randrange(len(ops)), {'op': 'scribble', 'i': rng.randrange(100)})
    return {'gdim': 2, 'bulk': {'n': n, 'k': rng.randint(1, 3), 'diag': rng.choice(['right', 'left', 'crossed']), 'perm': rng.randrange(10**6),
                                'skew': rng.choice([0, 0.3])}, 'cols': cols, 'loose': rng.randint(1, 4), 'meshes': [], 'ops': ops}


ELMS = [['CG', 1, 's'], ['CG', 1, 's'], ['CG', 2, 's'], ['DG', 0, 's'], ['DG', 1, 's'],
        ['CG', 1, 'v'], ['CG', 1, 'v'], ['CG', 2, 'v'], ['DG', 0, 'v'], ['CG', 1, 't'], ['DG', 0, 't']]


def space(mesh, elm):
    f, k, s = elm
    return {'s': df.FunctionSpace, 'v': df.VectorFunctionSpace, 't': df.TensorFunctionSpace}[s](mesh, f, k)


class Extension(Alg):
    def __init__(self, plan, sim):
        Alg.__init__(self, plan, sim)
        self.V = {}
        gdim = plan['gdim']
        self.mesh = []
        self.bulk = []
        for s in plan['meshes']:
            g = rnd('ext', s['seed'])
            if s['m'] == 'line':
                mesh, _ = network({'gdim': gdim, 'nodes': s['nodes'], 'extra': s['extra'], 'seed': s['seed']})
            else:
                sq = df.UnitSquareMesh(s['n'], s['k'])
                x = sq.coordinates().copy()
                x = x + 0.1*g.uniform(-1, 1, x.shape)/max(s['n'], s['k'])
                if gdim == 3:
                    x = np.c_[x, 0.4*np.sin(2*x[:, 0] + 3*x[:, 1])]
                    x = x @ np.linalg.qr(g.normal(size=(3, 3)))[0].T
                mesh = renumber(build(x + g.uniform(-1, 1, gdim), sq.cells(), 2), s['seed'])
            self.mesh.append(mesh)
        if 'bulk' in plan:
            b = plan['bulk']
            self.bulk = []
            for more in (0, 1):         # The problem can be posed on either of these
                m = df.UnitSquareMesh(b['n'] + more, b['k'] + more, b['diag'])
                x = m.coordinates()
                x[:, 1] += b['skew']*x[:, 0]
                self.bulk.append(renumber(m, b['perm']))
            m = self.bulk[0]
            f = df.MeshFunction('size_t', m, 1, 0)
            f.set_all(0)
            from xii import EmbeddedMesh
            for t, c in enumerate(plan['cols'], 1):
                for e in df.edges(m):
                    if all(abs(m.coordinates()[v][0] - c/b['n']) < 1e-10 for v in e.entities(0)):
                        f[e] = t
                self.mesh.append(EmbeddedMesh(f, t))
            # A line which does not follow the edges
            n = plan['loose']
            p = np.linspace([0.11, 0.2], [0.93, 0.55], n+1)
            self.mesh.append(build(p, [(i, i+1) for i in range(n)], 1))
            self.f = [df.MeshFunction('size_t', m, 1, 0) for m in self.bulk]
            for f in self.f:
                df.DomainBoundary().mark(f, 1)

    def watched(self):
        return {i: m.coordinates().copy() for i, m in enumerate(self.mesh + self.bulk)}

    value = staticmethod(lambda A: dense(A))

    def get(self, i, elm):
        '''Space; these are made once'''
        at = (i, tuple(elm))
        if at not in self.V:
            self.V[at] = space(self.mesh[i], elm)
        return self.V[at]

    def component(self, V, elm):
        '''-> dof coordinates, list of dofs with their point, by component'''
        x = V.tabulate_dof_coordinates().reshape((V.dim(), -1))
        if elm[2] == 's':
            return x, [np.arange(V.dim())]
        return x, [np.array(V.sub(i).dofmap().dofs()) for i in range(V.num_sub_spaces())]

    def pair(self, op, sources, targets):
        i = sources[op['i'] % len(sources)]
        targets = [j for j in targets if j != i]
        j = targets[op['j'] % len(targets)]
        return i, j

    def do_extend(self, op):
        from xii.assembler.extension_matrix import uniform_extension_matrix, extension_mat
        lines = [i for i, m in enumerate(self.mesh) if m.topology().dim() == 1]
        i, j = self.pair(op, lines, range(len(self.mesh)))
        V, EV = self.get(i, op['elm']), self.get(j, op['elm'])
        moved = getattr(self, 'moved', set())
        if op['api'] == 'matrix' or i in moved or j in moved:
            f, cached = (lambda: uniform_extension_matrix(V, EV)), False
        else:
            f, cached = (lambda: extension_mat(V, EV, EV.mesh(), {'type': 'uniform', 'data': None})), True
        x, vd = self.component(V, op['elm'])
        y, ed = self.component(EV, op['elm'])
        b = rnd('values', op['seed']).uniform(-2, 2, V.dim())

        def verify(E):
            sim = self.sim
            sim.check(isinstance(E, df.cpp.la.GenericMatrix), 'bad-type', 'extension is %s' % type(E))
            sim.check((E.size(0), E.size(1)) == (EV.dim(), V.dim()), 'shape', 'extension matrix')
            e = (E*petsc_vec(b)).get_local()
            for vi, ei in zip(vd, ed):
                D = np.sqrt(((y[ei][:, None] - x[vi][None])**2).sum(axis=2))
                near = D <= D.min(axis=1)[:, None] + 1e-9
                for k, dof in enumerate(ei):
                    sim.check(np.abs(b[vi][near[k]] - e[dof]).min() < 1e-12, 'value',
                              lambda: 'uniform extension of %s: dof %d at %s' % (op['elm'], dof, y[dof]))
        self.sim.reach('uniform', tuple(op['elm']), EV.mesh().topology().dim(), self.plan['gdim'], cached)
        return f, verify, not cached

    def reference(self, i, j, elm, aux):
        at = (i, j, tuple(elm), aux)
        if at in self.memo:
            return self.memo[at]
        V, EV, k = self.get(i, elm), self.get(j, elm), elm[1]
        V2 = df.FunctionSpace(self.bulk[aux], elm[0], k)
        T2, TV, gb = Tab(V2), Tab(V), geo(self.bulk[aux])
        u, v = df.TrialFunction(V2), df.TestFunction(V2)
        A = dense(df.assemble(df.inner(df.grad(u), df.grad(v))*df.dx + u*v*df.dx))
        # Trace is the interpolant on the line; values of all the basis functions

        def at_point(_, p):
            out = np.zeros(V2.dim())
            c = gb.locate(p)
            c = c[0] if len(c) else gb.locate(p, 1e-7)[0]
            out[V2.dofmap().cell_dofs(c)] = T2.basis(c, p)[:, 0]
            return out
        T = Lagrange(V.mesh(), k, at_point)
        B = np.zeros((V2.dim(), V.dim()))
        P, W = RULE
        gg = geo(V.mesh())
        for ci in range(len(gg.cells)):
            X, dofs = gg.x[gg.cells[ci]], V.dofmap().cell_dofs(ci)
            for l, w in zip(P, W):
                p = l @ X
                B[:, dofs] += w*gg.vol[ci]*np.outer(T.at(ci, p), TV.basis(ci, p)[:, 0])
        U = np.linalg.solve(A, B)
        y = EV.tabulate_dof_coordinates().reshape((EV.dim(), -1))
        self.memo[at] = np.array([at_point(None, p) @ U for p in y])
        return self.memo[at]

    def do_harmonic(self, op):
        from xii.assembler.extension_matrix import harmonic_extension_operator, extension_mat
        all_ = range(len(self.mesh))
        i, j = self.pair(op, all_, all_)
        V, EV = self.get(i, op['elm']), self.get(j, op['elm'])
        want, aux = self.reference(i, j, op['elm'], op['aux']), self.f[op['aux']]
        cached = op['api'] == 'cached'
        if cached:
            f = lambda: extension_mat(V, EV, EV.mesh(), {'type': 'harmonic', 'data': {'aux_facet_f': aux}})
        else:
            f = lambda: harmonic_extension_operator(V, EV, aux)

        def verify(E):
            self.sim.check(isinstance(E, df.cpp.la.GenericMatrix), 'bad-type', 'extension is %s' % type(E))
            self.close(dense(E), want, np.abs(want).max() + 1e-3, 'harmonic extension %s -> %s' % (i, j))
        self.sim.reach('harmonic', tuple(op['elm']), i, j, op['aux'], cached)
        return f, verify, not cached

    def op_move(self, op):
        '''Caller moves a mesh; matrices are not remembered for those'''
        if not self.bulk:
            i = op['on'] % len(self.mesh)
            self.mesh[i].coordinates()[:] += rnd('move', op['seed']).uniform(-0.7, 0.7, self.plan['gdim'])
            self.moved = getattr(self, 'moved', set()) | {i}


from refmodel import RULES
RULE = RULES[1]


def run(plan, sim):
    Extension(plan, sim).run()
