'''Operators that reorganize block vectors, and wrap matrices/preconditioners for them'''
import numpy as np
import dolfin as df
from block import block_mat, block_vec
from petsc4py import PETSc
from alg import *

SPACES = ['CG1', 'DG0', 'CG2', 'DG1']
VSPACES = ['vCG1', 'vDG0', 'vCG2']


def gen_mapping(rng, n):
    '''Partition in some order'''
    idx = list(range(n))
    rng.shuffle(idx)
    out = []
    while idx:
        k = rng.randint(1, len(idx))
        out.append(idx[:k])
        idx = idx[k:]
    return out


def plan(rng, tier):
    worlds = []
    for _ in range(rng.randint(1, 2)):
        n = rng.randint(1, 4)
        worlds.append({'mesh': [rng.randint(1, 2), rng.randint(1, 2)], 'W': [rng.choice(SPACES) for _ in range(n)],
                       'V': rng.choice(VSPACES), 'nb': rng.randint(2, 3), 'seed': rng.randrange(10**6),
                       'x': rng.randint(2, 3)})

    def call():
        w = rng.randrange(len(worlds))
        n = len(worlds[w]['W'])
        src = {'w': w, 'x': rng.randrange(worlds[w]['x']), 'pooled': rng.random() < 0.6}
        k = rng.random()
        if k < 0.5:
            kind = rng.choice(['reduce', 'rearrange', 'rearrange', 'regroup', 'subselect', 'subselect'])
            if kind in ('reduce', 'regroup'):
                cuts = sorted(rng.sample(range(1, n), rng.randint(0, n-1))) + [n]
                arg = {'offsets': cuts, 'tuple': rng.random() < 0.3}
            elif kind == 'rearrange':
                arg = {'mapping': gen_mapping(rng, n)}
            else:
                m = rng.sample(range(n), rng.randint(1, n))
                arg = {'indices': m, 'int': rng.random() < 0.5}
            how = rng.choice(['apply', 'apply', 'T', 'round', 'sandwich', 'sandwich', 'mono'])
            if kind not in ('regroup', ) and rng.random() < 0.1:
                return dict(src, do='vecs', kind=kind, **arg)
            return dict(src, do='op', kind=kind, how=how, seed=rng.randrange(10**6), wrap=rng.choice([None, None, 'op', 'pc', 'scipy']), **arg)
        if k < 0.75:
            return dict(src, do='vectorized', how=rng.choice(['list', 'space', 'space']),
                        act=rng.choice(['apply', 'apply', 'apply', 'convert']), A=rng.randrange(2))
        if k < 0.78:
            return dict(src, do='vecs', kind=rng.choice(['pc', 'vectorized']), i=rng.randrange(n))
        if k < 0.93:
            return dict(src, do='pc', type=rng.choice(['jacobi', 'lu', 'none']), A=rng.randrange(2), i=rng.randrange(n),
                        T=rng.random() < 0.2)
        return dict(src, do='diag', As=[rng.randrange(n) for _ in range(rng.randint(1, 3))])

    ops = []
    for _ in range(rng.randint(14, 24)):
        k = rng.random()
        if k < 0.6:
            ops.append(decorate(rng, call()))
        elif k < 0.78:
            ops.append({'op': 'mut', 'w': rng.randrange(len(worlds)), 'what': rng.choice(['x', 'x', 'A', 'D']),
                        'i': rng.randrange(10), 'seed': rng.randrange(10**6)})
        elif k < 0.9:
            ops.append(gen_par(rng, call))
        elif k < 0.96:
            ops.append({'op': 'scribble', 'i': rng.randrange(100)})
        else:
            ops.append({'op': 'gc'})
    return {'worlds': worlds, 'ops': ops}


class Store(Alg):
    def __init__(self, plan, sim):
        Alg.__init__(self, plan, sim)
        self.meta, self.made = [], {}
        for w, s in enumerate(plan['worlds']):
            mesh = df.UnitSquareMesh(*s['mesh'])

            def space(e):
                f = df.VectorFunctionSpace if e[0] == 'v' else df.FunctionSpace
                e = e.lstrip('v')
                return f(mesh, e[:2], int(e[2:]))
            W = [space(e) for e in s['W']]
            V = space(s['V'])
            n, scalar = [X.dim() for X in W], space(s['V'][1:])
            self.meta.append({'W': W, 'V': V, 'n': n, 'scalar': scalar,
                              'comp': [np.array(V.sub(j).dofmap().dofs()) for j in range(V.num_sub_spaces())]})
            g = rnd('world', s['seed'])
            for k in range(s['x']):
                for i, m in enumerate(n):
                    self.put(('x', w, k, i), g.uniform(-1, 1, m))
                self.put(('V', w, k), g.uniform(-1, 1, V.dim()))
                for j in range(s['nb']):
                    self.put(('b', w, k, j), g.uniform(-1, 1, scalar.dim()))
            for i, a in enumerate(n):
                for j, b in enumerate(n):
                    self.put(('A', w, i, j), g.uniform(-1, 1, (a, b))*(g.uniform(size=(a, b)) < 0.7))
                for k in range(2):  # Invertible matrices
                    self.put(('D', w, k, i), self.good(g, a))
            for k in range(2):
                self.put(('S', w, k), self.good(g, scalar.dim()))

    def good(self, g, a):
        return np.diag(g.uniform(2*a, 3*a, a)) + g.uniform(-1, 1, (a, a))

    def put(self, key, val):
        self.ref[key] = val
        self.obj[key] = petsc_mat(val) if val.ndim == 2 else petsc_vec(val)

    def op_mut(self, op):
        keys = sorted(k for k in self.obj if k[0] == op['what'] and k[1] == op['w'])
        key = keys[op['i'] % len(keys)]
        g, old = rnd('mut', op['seed']), self.ref[key]
        if op['what'] == 'x':
            self.ref[key] = g.uniform(-1, 1, len(old))
            self.obj[key].set_local(self.ref[key])
            self.obj[key].apply('insert')
        else:   # In place, what wraps the matrix is to follow
            f = g.uniform(0.5, 1.5)
            df.as_backend_type(self.obj[key]).mat().scale(f)
            self.ref[key] = old*f

    # --- sources of block vectors: the plain one, or that from a product
    def source(self, op):
        w, k = op['w'], op['x']
        n = self.meta[w]['n']
        x = block_vec([self.obj['x', w, k, i] for i in range(len(n))])
        v = [self.ref['x', w, k, i] for i in range(len(n))]
        if not op['pooled']:
            return (lambda: x), v
        AA = block_mat([[self.obj['A', w, i, j] for j in range(len(n))] for i in range(len(n))])
        v = [sum(self.ref['A', w, i, j] @ v[j] for j in range(len(n))) for i in range(len(n))]
        return (lambda: AA*x), v

    def reuse(self, op):
        '''Somebody else uses the vectors from the pool'''
        if op['pooled']:
            w, k = op['w'], op['x']
            n = self.meta[w]['n']
            other = block_vec([self.obj['x', w, (k+1) % self.plan['worlds'][w]['x'], i] for i in range(len(n))])
            AA = block_mat([[self.obj['A', w, i, j] for j in range(len(n))] for i in range(len(n))])
            junk = AA*other
            junk *= 1e20

    def operator(self, op, W):
        from xii.linalg import block_utils as u
        if op['kind'] in ('reduce', 'regroup'):
            offs = tuple(op['offsets']) if op['tuple'] else list(op['offsets'])
            R = {'reduce': u.ReductionOperator, 'regroup': u.RegroupOperator}[op['kind']](offs, W)
            groups = [list(range(f, l)) for f, l in zip([0] + op['offsets'][:-1], op['offsets'])]
        elif op['kind'] == 'rearrange':
            R = u.RearangeOperator(tuple(map(tuple, op['mapping'])), W)
            groups = op['mapping']
        else:
            idx = op['indices']
            R = u.SubSelectOperator(idx[0] if len(idx) == 1 and op['int'] else tuple(idx), W)
            groups = [[i] for i in idx]
        return R, groups

    def do_op(self, op):
        w = op['w']
        W, n = self.meta[w]['W'], self.meta[w]['n']
        if op['kind'] == 'regroup' and len(n) == 1:
            return None     # Nothing to regroup
        key = (w, op['kind'], repr(op.get('offsets', op.get('mapping', op.get('indices')))), op.get('tuple'), op.get('int'))
        if key not in self.made:
            self.made[key] = self.operator(op, W)
        R, groups = self.made[key]
        src, v = self.source(op)
        how = op['how']
        if op['kind'] in ('regroup', 'subselect') and how == 'mono':
            how = 'apply'
        if op['kind'] == 'regroup' and how == 'sandwich':
            how = 'round'
        one = len(groups) == 1

        def group(vals):
            return [np.concatenate([vals[i] for i in g]) for g in groups]
        self.sim.reach('op', op['kind'], how, op['pooled'], len(groups), max(map(len, groups)))
        if how in ('apply', 'mono'):
            want = group(v)
            if how == 'mono':
                g = rnd('mono', op['seed'])
                v = [g.uniform(-1, 1, k) for k in n]
                want = group(v)
                mono = df.PETScVector(df.as_backend_type(petsc_vec(np.concatenate(v))).vec())
                src = lambda: mono

            def f():
                y = R*src()
                self.reuse(op)
                return y

            def verify(y):
                if op['kind'] != 'regroup':
                    self.sim.check(isinstance(y, block_vec) != one, 'bad-type', '%s gives %s' % (op, type(y)))
                if not one:
                    self.sim.check(len(y) == len(groups), 'bad-type', 'number of blocks')
                for a, b in zip([y] if one else y, want):
                    self.close(dense(a), b, 10, '%s of %s' % (op['kind'], groups))
            return f, verify, op['pooled'] or how == 'mono'
        if how == 'T':      # Of something that is not result of R
            g = rnd('T', op['seed'])
            vals = [g.uniform(-1, 1, n[i]) for i in range(len(n))]
            if op['kind'] == 'regroup':
                y = [block_vec([petsc_vec(vals[i]) for i in gr]) if len(gr) > 1 else petsc_vec(vals[gr[0]]) for gr in groups]
                if one:
                    return None
                y = block_vec(y)
            else:
                y = [petsc_vec(a) for a in group(vals)]
                y = y[0] if one else block_vec(y)
            if op['kind'] == 'subselect':
                vals = [a if i in op['indices'] else 0*a for i, a in enumerate(vals)]

            def f():
                x = R.T*y
                self.reuse(op)
                return x

            def verify(x):
                self.sim.check(isinstance(x, block_vec) and len(x) == len(n), 'bad-type', '%s' % type(x))
                for a, b in zip(x, vals):
                    self.close(dense(a), b, 1, 'transpose of %s %s' % (op['kind'], groups))
            return f, verify, False
        if how == 'round':
            want = [a if op['kind'] != 'subselect' or i in op['indices'] else 0*a for i, a in enumerate(v)]

            def f():
                x = R.T*(R*src())
                self.reuse(op)
                return x

            def verify(x):
                self.sim.check(isinstance(x, block_vec) and len(x) == len(n), 'bad-type', '%s' % type(x))
                for a, b in zip(x, want):
                    self.close(dense(a), b, 10, 'round trip by %s %s' % (op['kind'], groups))
            return f, verify, op['pooled']
        # Sandwich R.T*B*R, B has matrices of the groups on the diagonal (and more)
        import xii
        grid = []
        model = [np.zeros(k) for k in n]
        for i, gi in enumerate(groups):
            grid.append([])
            for j, gj in enumerate(groups):
                if i != j and (i + j + op['seed']) % 3 == 0:
                    grid[-1].append(0)
                    continue
                sub = block_mat([[self.obj['A', w, a, b] for b in gj] for a in gi])
                grid[-1].append(xii.ii_convert(sub))
                for a in gi:
                    for b in gj:
                        model[a] = model[a] + self.ref['A', w, a, b] @ v[b]
        B = grid[0][0] if one else block_mat(grid)
        if op.get('wrap') and op['kind'] in ('reduce', 'rearrange'):
            return self.wrapped((R.T)*B*R, n, v, model, op['wrap'], op)

        def f():
            x = (R.T)*B*R*src()
            self.reuse(op)
            return x

        def verify(x):
            self.sim.check(isinstance(x, block_vec) and len(x) == len(n), 'bad-type', '%s' % type(x))
            for a, b in zip(x, model):
                self.close(dense(a), b, 100, 'R.T*B*R by %s %s' % (op['kind'], groups))
        return f, verify, True

    def wrapped(self, X, n, v, model, how, op):
        '''The sandwich as operator or preconditioner of solvers'''
        import xii
        from xii.linalg.krylov_api import ScipyLinOp
        self.sim.reach('wrapped', how, op['kind'], len(n))

        def f():
            if how == 'scipy':
                L = ScipyLinOp(X)
                self.sim.check(tuple(L.shape) == (sum(n), sum(n)), 'sizes', 'shape of linear operator')
                return L.matvec(np.concatenate(v))
            x = xii.nest(block_vec([petsc_vec(a) for a in v]))
            y = xii.nest(block_vec([petsc_vec(0*a + 3.) for a in v]))
            M = xii.ii_PETScOperator(X, None)
            if how == 'op':
                M.mult(x, y)
            else:
                ksp = PETSc.KSP().create()
                ksp.setOperators(M)
                xii.ii_PETScPreconditioner(X, ksp).apply(x, y)
            self.sim.check(same(dense(x), np.concatenate(v)), 'input-changed', 'argument of wrapped operator')
            return dense(y)
        want = np.concatenate(model)
        return f, lambda y: self.close(y, want, 100, 'sandwich as %s' % how), False

    def do_vecs(self, op):
        '''Vectors which operators create have sizes of their arguments and results'''
        import xii
        w = op['w']
        n = self.meta[w]['n']
        if op['kind'] == 'pc':
            i = op['i'] % len(n)
            pc = PETSc.PC().create()
            pc.setOperators(df.as_backend_type(self.obj['D', w, 0, i]).mat())
            pc.setType('jacobi')
            R, want = xii.BlockPC(pc), ([n[i]], [n[i]])
        elif op['kind'] == 'vectorized':
            R, want = xii.VectorizedOperator(self.obj['S', w, 0], self.meta[w]['V']), ([self.meta[w]['V'].dim()], )*2
        else:
            R, groups = self.operator(op, self.meta[w]['W'])
            want = [sum(n[i] for i in g) for g in groups], n

        def f():
            out = []
            for dim in (0, 1):
                v = R.create_vec(dim)
                sizes = [x.size() for x in v] if isinstance(v, block_vec) else [v.size()]
                self.sim.check(sizes == list(want[dim]), 'sizes', lambda: 'vector %d of %s has sizes %s' % (dim, op, sizes))
                out.append(v)
            return [float(v.size()) if not isinstance(v, block_vec) else float(len(v)) for v in out]
        return f, lambda out: None, False

    def do_vectorized(self, op):
        import xii
        w, k = op['w'], op['x']
        m, s = self.meta[w], self.plan['worlds'][w]
        A, a = self.obj['S', w, op['A']], self.ref['S', w, op['A']]
        key = (w, 'vec', op['how'], op['A'])
        if key not in self.made:
            W = [m['scalar']]*s['nb'] if op['how'] == 'list' else m['V']
            self.made[key] = xii.VectorizedOperator(A, W)
        X = self.made[key]
        self.sim.reach('vectorized', op['how'], op['act'], s['V'])
        if op['how'] == 'list':
            x = block_vec([self.obj['b', w, k, j] for j in range(s['nb'])])
            mat = np.kron(np.eye(s['nb']), a)
            v = np.concatenate([self.ref['b', w, k, j] for j in range(s['nb'])])
        else:
            x, v = self.obj['V', w, k], self.ref['V', w, k]
            mat = np.zeros((len(v), len(v)))
            for c in m['comp']:
                mat[np.ix_(c, c)] = a
        scale = np.abs(a).max()*10
        if op['act'] == 'convert' and op['how'] == 'space':
            return (lambda: xii.ii_convert(X)), (lambda A: self.close(dense(A), mat, scale, 'matrix of vectorized')), False
        return (lambda: X*x), (lambda y: self.close(dense(y), mat @ v, scale, 'vectorized')), True

    def do_pc(self, op):
        import xii
        w, k, i = op['w'], op['x'], op['i']
        A, a = self.obj['D', w, op['A'], i], self.ref['D', w, op['A'], i]
        x, v = self.obj['x', w, k, i], self.ref['x', w, k, i]
        self.sim.reach('pc', op['type'])

        def f():
            pc = PETSc.PC().create()
            pc.setOperators(df.as_backend_type(A).mat())
            pc.setType(op['type'])
            pc.setUp()
            B = xii.BlockPC(pc)
            y = B*x
            z = B*y
            return y, z
        inv = {'jacobi': lambda: np.diag(1/np.diag(a)), 'lu': lambda: np.linalg.inv(a), 'none': lambda: np.eye(len(a))}[op['type']]()

        def verify(out):
            self.close(dense(out[0]), inv @ v, 1, 'preconditioner %s' % op['type'])
            self.close(dense(out[1]), inv @ (inv @ v), 1, 'preconditioner %s applied again' % op['type'])
        return f, verify, True

    def do_diag(self, op):
        import xii
        w = op['w']
        As = [self.obj['D', w, 0, i] for i in op['As']]
        n = [len(self.ref['D', w, 0, i]) for i in op['As']]
        X = xii.block_diag_mat(As)
        xs = [rnd('diag', w, i).uniform(-1, 1, k) for i, k in enumerate(n)]
        x = block_vec([petsc_vec(a) for a in xs])

        def verify(y):
            for a, i, b in zip(y, op['As'], xs):
                want = self.ref['D', w, 0, i] @ b
                self.close(dense(a), want, np.abs(self.ref['D', w, 0, i]).max()*10, 'block diagonal matrix')
        return (lambda: X*x), verify, True


def run(plan, sim):
    Store(plan, sim).run()
