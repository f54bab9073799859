'''Bases of nullspaces, projectors onto their complement, matrices of abstract operators'''
import numpy as np
import dolfin as df
from block import block_vec
from alg import *

SPACES = [('CG', 1, 0), ('DG', 0, 0), ('CG', 2, 0), ('CG', 1, 1), ('DG', 1, 0)]
FUNS = ['1', 'x[0]', 'x[1]', 'x[0]*x[1]+0.3', 'cos(2*x[0])', '2.5-x[1]*x[1]']


def plan(rng, tier):
    W = [rng.randrange(len(SPACES)) for _ in range(rng.randint(1, 3))]

    def comp(i, first):
        k = rng.random()
        if k < 0.45:
            return ['vec', rng.randrange(10**6)]
        if SPACES[W[i]][2]:
            return [rng.choice(['tuple', 'list', 'vconst']), rng.randint(1, 9), rng.randint(1, 9)]
        return [rng.choice(['float', 'int', 'const']), rng.randint(1, 9)]

    def vector():
        v = [comp(i, False) for i in range(len(W))]
        if rng.random() < 0.3 and len(v) > 1:
            i = rng.randrange(len(v))
            v[i] = ['zero']
        return v
    vectors = [vector() for _ in range(rng.randint(2, 5))]
    nulls = [sorted(rng.sample(range(len(FUNS)), rng.randint(1, 3))) for _ in range(2)]
    nspaces = [rng.choice([0, 2, 4]) for _ in nulls]
    feops = [{'n': [rng.randint(1, 6), rng.randint(1, 6)], 'square': rng.random() < 0.3, 'seed': rng.randrange(10**6)} for _ in range(2)]

    def call():
        k = rng.random()
        if k < 0.3:
            return {'do': 'basis', 'vs': rng.sample(range(len(vectors)), rng.randint(1, min(3, len(vectors)))), 'add': rng.random() < 0.5,
                    'seed': rng.randrange(10**6)}
        if k < 0.75:
            return {'do': 'project', 'i': rng.randrange(len(nulls)), 'seed': rng.randrange(10**6), 'new': rng.random() < 0.4,
                    'what': rng.choice(['P', 'P', 'L20', 'L20', 'riesz', 'PM', 'L20M'])}
        return {'do': 'matrix', 'i': rng.randrange(len(feops)), 'new': rng.random() < 0.4, 'seed': rng.randrange(10**6),
                'dirty': rng.random() < 0.5}

    ops = []
    for _ in range(rng.randint(10, 18)):
        k = rng.random()
        if k < 0.6:
            ops.append(decorate(rng, call()))
        elif k < 0.75:
            op = {'op': 'grow', 'v': rng.randrange(len(vectors)), 'new': rng.random() < 0.2}
            if rng.random() < 0.4:
                op['faults'] = [gen_fault(rng)]
            ops.append(op)
        elif k < 0.83:
            ops.append({'op': 'orth', 'seed': rng.randrange(10**6)})
        elif k < 0.92:
            ops.append(gen_par(rng, call))
        elif k < 0.97:
            ops.append({'op': 'scribble', 'i': rng.randrange(100)})
        else:
            ops.append({'op': 'gc'})
    return {'W': W, 'mesh': [rng.randint(1, 2), rng.randint(2, 3)], 'vectors': vectors, 'nulls': nulls, 'nspaces': nspaces,
            'feops': feops, 'ops': ops}


class Nullspaces(Alg):
    TOL = 1e-8

    def __init__(self, plan, sim):
        Alg.__init__(self, plan, sim)
        from xii.linalg.block_nullspace import BlockNullspace
        mesh = df.UnitSquareMesh(*plan['mesh'])
        self.mesh = mesh

        def space(i):
            f, p, v = SPACES[i]
            return (df.VectorFunctionSpace if v else df.FunctionSpace)(mesh, f, p)
        self.W = [space(i) for i in plan['W']]
        self.off = np.r_[0, np.cumsum([W.dim() for W in self.W])]
        self.specs, self.cons = [], []
        for k, v in enumerate(plan['vectors']):
            xs = [self.component(W, c) for W, c in zip(self.W, v)]
            self.specs.append((v, np.concatenate(xs)))
        self.grown, self.taken = BlockNullspace(self.W), []
        self.V, self.Z, self.cached = [], [], {}
        for s, fs in zip(plan['nspaces'], plan['nulls']):
            V = space(s)
            M = dense(df.assemble(df.inner(df.TrialFunction(V), df.TestFunction(V))*df.dx))
            Z = np.array([df.interpolate(df.Expression(FUNS[f], degree=2), V).vector().get_local() for f in fs]).T
            self.V.append((V, M))
            self.Z.append(Z)
        self.fe = []
        for i, o in enumerate(plan['feops']):
            n = [o['n'][0]]*2 if o['square'] else o['n']
            V0, V1 = [df.FunctionSpace(df.UnitIntervalMesh(m), 'CG', 1) for m in n]
            if o['square']:
                V0 = V1
            a = rnd('fe', o['seed']).uniform(-1, 1, (V0.dim(), V1.dim()))*(rnd('fe2', o['seed']).uniform(size=(V0.dim(), V1.dim())) < 0.7)
            self.obj['A%d' % i] = A = petsc_mat(a)
            self.fe.append((V0, V1, A, a))

    def component(self, W, c):
        n = W.dim()
        if c[0] == 'vec':
            return rnd('v', c[1]).uniform(-1, 1, n)
        if c[0] == 'zero':
            return np.zeros(n)
        if c[0] in ('float', 'int', 'const'):
            return np.full(n, c[1]*(1 if c[0] == 'int' else 0.5))
        x = np.zeros(n)
        for i in (0, 1):
            x[W.sub(i).dofmap().dofs()] = c[1+i]
        return x

    def given(self, k):
        '''Block vector with the kinds of components that we are to handle'''
        spec, x = self.specs[k]
        out = []
        for i, c in enumerate(spec):
            if c[0] == 'vec':
                out.append(petsc_vec(x[self.off[i]:self.off[i+1]]))
            else:
                out.append({'zero': lambda: petsc_vec(0*x[self.off[i]:self.off[i+1]]), 'float': lambda: 0.5*c[1], 'int': lambda: c[1],
                            'const': lambda: df.Constant(0.5*c[1]), 'tuple': lambda: (c[1], c[2]), 'list': lambda: [c[1], c[2]],
                            'vconst': lambda: df.Constant((c[1], c[2]))}[c[0]]())
        return block_vec(out)

    def independent(self, ks):
        X = np.array([self.specs[k][1] for k in ks]).T
        if len(ks) > X.shape[0]:
            return False
        X = X/np.maximum(np.linalg.norm(X, axis=0), 1e-300)
        return np.linalg.svd(X, compute_uv=False).min() > 1e-2

    def basis_ok(self, vectors, ks):
        Z = np.array([dense(v) for v in vectors]).T
        X = np.array([self.specs[k][1] for k in ks]).T
        self.sim.check(Z.shape == X.shape, 'basis', 'have %s vectors instead of %s' % (Z.shape, X.shape))
        self.close(Z.T @ Z, np.eye(len(ks)), 1, 'basis is orthonormal', 'basis')
        self.close(Z @ (Z.T @ X), X, np.abs(X).max(), 'basis spans given vectors', 'basis')

    def do_basis(self, op):
        from xii.linalg.block_nullspace import BlockNullspace
        ks = op['vs']
        if not self.independent(ks):
            return None
        g = rnd('orth', op['seed']).uniform(-1, 1, self.off[-1])
        self.sim.reach('basis', op['add'], len(self.W), tuple(sorted({c[0] for k in ks for c in self.specs[k][0]})))

        def f():
            vs = [self.given(k) for k in ks]
            if op['add']:
                Z = BlockNullspace(self.W)
                for v in vs:
                    Z.add_vector(v)
            else:
                Z = BlockNullspace(self.W, vs)
            self.sim.check(len(Z) == len(ks), 'basis', 'length')
            for k, v in zip(ks, vs):
                for c, x, i in zip(self.specs[k][0], v, range(len(v))):
                    if c[0] == 'vec':
                        self.sim.check(same(dense(x), self.specs[k][1][self.off[i]:self.off[i+1]]), 'input-changed', 'given vector')
                    elif c[0] in ('float', 'int'):
                        self.sim.check(x == c[1]*(1 if c[0] == 'int' else 0.5), 'input-changed', 'given number')
            x = block_vec([petsc_vec(g[p:q]) for p, q in zip(self.off[:-1], self.off[1:])])
            return list(Z) + [Z.orthogonalize(x)]

        def verify(out):
            self.basis_ok(out[:-1], ks)
            Q = np.linalg.qr(np.array([self.specs[k][1] for k in ks]).T)[0]
            self.close(dense(out[-1]), g - Q @ (Q.T @ g), 1, 'part in the nullspace is removed')
        return f, verify, True

    def op_grow(self, op):
        '''One nullspace gets vectors as time goes'''
        from xii.linalg.block_nullspace import BlockNullspace
        if op['new']:
            self.grown, self.taken = BlockNullspace(self.W), []
        k = op['v']
        if k in self.taken or not self.independent(self.taken + [k]):
            return
        Z = self.grown
        before = [dense(v) for v in Z]
        for fault in op.get('faults') or ():
            self.sim.with_fault(lambda: Z.add_vector(self.given(k)), fault)
            now = [dense(v) for v in Z]
            self.sim.check(len(now) in (len(before), len(before)+1) and all(same(a, b) for a, b in zip(now, before)), 'basis',
                           'changed by interrupted call')
            if len(now) > len(before):
                self.taken.append(k)
                self.basis_ok(list(Z), self.taken)
                return
        Z.add_vector(self.given(k))
        self.taken.append(k)
        self.sim.check(all(same(dense(a), b) for a, b in zip(Z, before)), 'basis', 'earlier vectors changed')
        self.basis_ok(list(Z), self.taken)
        self.sim.event('grow', self.sim.num(flat([dense(z) for z in Z])))

    def op_orth(self, op):
        g = rnd('orth', op['seed']).uniform(-1, 1, self.off[-1])
        y = dense(self.grown.orthogonalize(block_vec([petsc_vec(g[p:q]) for p, q in zip(self.off[:-1], self.off[1:])])))
        want = g
        if self.taken:
            Q = np.linalg.qr(np.array([self.specs[k][1] for k in self.taken]).T)[0]
            want = g - Q @ (Q.T @ g)
        self.close(y, want, 1, 'part in the nullspace is removed')

    # ---
    def do_project(self, op):
        from xii.linalg import sherman_morrison as sm
        i, what = op['i'], op['what']
        (V, M), Z = self.V[i], self.Z[i]
        if Z.shape[1] > Z.shape[0] or np.linalg.svd(Z, compute_uv=False).min() < 1e-3:
            return None
        G = Z.T @ M @ Z
        lam = np.linalg.eigvalsh(G)
        # Only distinct eigenvalues are supported
        if lam.min() < 1e-6 or (len(lam) > 1 and np.diff(lam).min() < 1e-4):
            return None
        P = np.eye(len(M)) - Z @ np.linalg.solve(G, Z.T @ M)
        ref = {'P': P, 'PM': P, 'L20': M @ P, 'L20M': M @ P, 'riesz': P @ np.linalg.inv(M)}[what]
        cls = {'P': sm.Projector, 'PM': sm.Projector, 'L20': sm.L20_inner_product, 'L20M': sm.L20_inner_product,
               'riesz': sm.L20_riesz_map}[what]
        xs = rnd('proj', op['seed']).uniform(-1, 1, (2, len(M)))
        self.sim.reach('project', what, self.plan['nspaces'][i], Z.shape[1], op['new'])

        def f():
            key = cls.__name__, i
            if op['new'] or key not in self.cached:
                made = cls(V, [df.Expression(FUNS[j], degree=2) for j in self.plan['nulls'][i]])
                if not op['new']:
                    self.cached[key] = made
            else:
                made = self.cached[key]
            if what.endswith('M'):
                # The matrix is remembered, so only values are given out
                return dense(made.collapse())
            vs = [petsc_vec(x) for x in xs]
            ys = [made*v for v in vs]
            for v, x in zip(vs, xs):
                self.sim.check(same(dense(v), x), 'input-changed', 'argument of %s' % what)
            return ys

        def verify(out):
            if what.endswith('M'):
                return self.close(out, ref, np.abs(ref).max(), 'matrix of %s' % what)
            for y, x in zip(out, xs):
                self.close(dense(y), ref @ x, np.abs(ref).sum(axis=1).max(), 'action of %s' % what)
        return f, verify, not what.endswith('M')

    def do_matrix(self, op):
        from xii.linalg.fe_space_op import FESpaceOperator
        from xii import ii_convert
        V0, V1, A, a = self.fe[op['i']]

        class Op(FESpaceOperator):
            def __init__(self):
                FESpaceOperator.__init__(self, V1=V1, V0=V0)

            def matvec(self, b):
                return A*b
        x = rnd('fe', op['seed']).uniform(-1, 1, a.shape[1])
        self.sim.reach('matrix', a.shape, op['new'], op['dirty'])

        def f():
            key = 'fe', op['i']
            if op['new'] or key not in self.cached:
                O = Op()
                if not op['new']:
                    self.cached[key] = O
            O = self.cached[key] if not op['new'] else O
            v = O.create_vec(1)
            self.sim.check(v.size() == a.shape[1] and O.create_vec(0).size() == a.shape[0], 'sizes', 'vectors of operator')
            v.set_local(x)
            y = O*v
            if not op['dirty']:
                v.zero()
            del v
            return [y, dense(ii_convert(O))]

        def verify(out):
            self.close(dense(out[0]), a @ x, 10, 'action of operator')
            self.close(out[1], a, 10, 'matrix of operator')
        return f, verify, True


def run(plan, sim):
    import xii
    Nullspaces(plan, sim).run()
