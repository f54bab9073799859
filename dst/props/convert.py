'''Matrices of block operators'''
import numpy as np
import dolfin as df
from alg import *
from exprs import *

NUM = [0, 0, 0, 0, 1, -1, 2.5]


def gen_grid(rng, mats, sizes_r, sizes_c, special):
    '''Blocks: every row and column has a plain matrix so that sizes are known'''
    nr, nc = len(sizes_r), len(sizes_c)
    grid = [[None]*nc for _ in range(nr)]
    for i in range(max(nr, nc)):
        a, b = i % nr, i % nc
        grid[a][b] = ['m', rng.choice(mats[sizes_r[a], sizes_c[b]])]
    if rng.random() < 0.5:
        rng.shuffle(grid) if len(set(sizes_r)) == 1 else None
    for i in range(nr):
        for j in range(nc):
            if grid[i][j] is None:
                r, c = sizes_r[i], sizes_c[j]
                if rng.random() < 0.35:
                    v = rng.choice(NUM) if r == c else 0
                    grid[i][j] = ['n', v, r, c]
                else:
                    grid[i][j] = gen_expr(rng, mats, r, c, rng.randint(0, 2), special=special)
                    if rng.random() < 0.15:
                        grid[i][j] = identity(rng, ['m', rng.choice(mats[r, c])])
    return grid


def identity(rng, m):
    '''Operations with the value of m (yet the result is not to be m)'''
    k = rng.randrange(6)
    n = lambda e, v: ['k' if rng.random() < 0.6 else 'xk', v, e, rng.choice(['py', 'np'])]
    if k < 3:
        return n(m, rng.choice([1, 1., 1.0]))
    if k == 3:
        return ['T', ['T', m]]
    if k == 4:
        return n(n(m, -1), -1)
    return n(n(m, 2), 0.5)


def gen_util(rng, mats, dims):
    '''Matrices made from other matrices, arrays and numbers'''
    r, c = rng.choice(dims), rng.choice(dims)
    how = rng.choice(['transpose', 'diag', 'identity', 'reshape', 'array', 'tonumpy', 'vtonumpy', 'assembly', 'assembly', 'rows', 'lgmap'])
    op = {'do': 'util', 'how': how, 'm': rng.choice(mats[r, c]), 'n': r, 'seed': rng.randrange(10**6), 'petsc': rng.random() < 0.5}
    if how in ('reshape', 'tonumpy', 'assembly', 'lgmap'):
        nr, nc = rng.randint(1, 3), rng.randint(1, 3)
        if how == 'reshape':
            nr = nc = rng.randint(2, 4)
            op['offsets'] = sorted(rng.sample(range(1, nr), rng.randint(1, nr - 1))) + [nr]
        sr, sc = [rng.choice(dims) for _ in range(nr)], [rng.choice(dims) for _ in range(nc)]
        op['grid'] = [[rng.choice(mats[a, b]) for b in sc] for a in sr]
        if how == 'tonumpy':            # Zeros, all rows and columns have some matrix
            op['grid'] = [[0 if rng.random() < 0.4 and i % nc != j % nr else m for j, m in enumerate(row)] for i, row in enumerate(op['grid'])]
            for i in range(max(nr, nc)):
                op['grid'][i % nr][i % nc] = op['grid'][i % nr][i % nc] or rng.choice(mats[sr[i % nr], sc[i % nc]])
    return op


def plan(rng, tier):
    dims = sorted(rng.sample([1, 2, 3, 4, 6], 3))
    objs, mats = {}, {}
    for r in dims:
        for c in dims:
            for k in range(rng.randint(1, 2)):
                name = 'A%d%d%s' % (r, c, 'ab'[k])
                how = rng.choice(['petsc', 'petsc', 'petsc', 'zero', 'lowrank', 'matrix', 'tiny'])
                objs[name] = {'r': r, 'c': c, 'seed': rng.randrange(10**6), 'how': how, 'p': rng.choice([0.3, 0.6, 1.])}
                mats.setdefault((r, c), []).append(name)
    special = rng.random() < 0.3

    def call():
        k = rng.random()
        if k < 0.5:
            r, c = rng.choice(dims), rng.choice(dims)
            e = gen_expr(rng, mats, r, c, rng.randint(1, 4), special=special)
            if rng.random() < 0.2:
                e = identity(rng, ['m', rng.choice(mats[r, c])])
            hows = ['convert', 'collapse'] + ([] if special else ['iter', 'mono'])
            return {'do': 'expr', 'e': e, 'how': rng.choice(hows), 'share': rng.random() < 0.3}
        if k < 0.85:
            nr, nc = rng.randint(1, 3), rng.randint(1, 3)
            if rng.random() < 0.6:
                nc = nr
            sr, sc = [rng.choice(dims) for _ in range(nr)], [rng.choice(dims) for _ in range(nc)]
            if nr == nc and rng.random() < 0.5:
                sc = list(sr)
            hows = ['convert', 'convert', 'blocks', 'nest'] + ([] if special else ['iter', 'mono'])
            return {'do': 'grid', 'grid': gen_grid(rng, mats, sr, sc, special), 'r': sr, 'c': sc, 'how': rng.choice(hows)}
        if k < 0.9:
            return {'do': 'vec', 'sizes': [rng.choice(dims) for _ in range(rng.randint(1, 4))], 'seed': rng.randrange(10**6),
                    'how': rng.choice(['convert', 'mono', 'nest', 'sizes'])}
        if rng.random() < 0.5:
            return gen_util(rng, mats, dims)
        r, c = rng.choice(dims), rng.choice(dims)
        return {'do': 'dims', 'e': gen_expr(rng, mats, r, c, rng.randint(1, 4)), 'r': r, 'c': c,
                'user': rng.choice([None, None, 'left', 'right', 'T', 'sizes', 'bmat']), 'k': rng.choice(dims)}

    ops = []
    for _ in range(rng.randint(14, 22)):
        k = rng.random()
        if k < 0.62:
            ops.append(decorate(rng, call()))
        elif k < 0.78:
            ops.append({'op': 'mut', 'name': rng.choice(sorted(objs)), 'how': rng.choice(['scale', 'values', 'axpy', 'new']),
                        'seed': rng.randrange(10**6)})
        elif k < 0.88:
            ops.append(gen_par(rng, call))
        elif k < 0.95:
            ops.append({'op': 'scribble', 'i': rng.randrange(100)})
        else:
            ops.append({'op': 'gc'})
    return {'objs': objs, 'ops': ops}


class Sized(block_base):
    '''Operator of user, no matrix'''
    def __init__(self, r, c, known=False):
        self.rc = (r, c)
        if known:
            self.__sizes__ = (r, c)
        else:
            self.create_vec = lambda dim=1: petsc_vec(np.zeros(self.rc[dim]))

    def matvec(self, x):
        return petsc_vec(np.ones(self.rc[0]))


class Store(Alg):
    def __init__(self, plan, sim):
        Alg.__init__(self, plan, sim)
        for k, o in sorted(plan['objs'].items()):
            self.make(k, o)

    def make(self, k, o):
        g = rnd('mat', o['seed'])
        a = g.uniform(-1, 1, (o['r'], o['c']))*(g.uniform(size=(o['r'], o['c'])) < o['p'])
        if o['how'] == 'zero':
            a *= 0
        elif o['how'] == 'tiny':
            a *= 1e-7
        elif o['how'] == 'lowrank':
            a = np.outer(g.uniform(-1, 1, o['r']), g.uniform(-1, 1, o['c']))
        self.obj[k], self.ref[k] = petsc_mat(a), a
        if o['how'] == 'matrix':
            self.obj[k] = df.Matrix(self.obj[k])

    def op_mut(self, op):
        k, o = op['name'], self.plan['objs'][op['name']]
        A = df.as_backend_type(self.obj[k]).mat()
        if op['how'] == 'scale':
            f = 1 + rnd('scale', op['seed']).uniform(-0.5, 0.5)
            A.scale(f)
            self.ref[k] = self.ref[k]*f
        elif op['how'] == 'new':         # Object goes away, other takes its place
            self.make(k, dict(o, seed=op['seed']))
        else:
            ptr, idx, val = A.getValuesCSR()
            new = rnd('vals', op['seed']).uniform(0.5, 1.5, len(val))*(val if op['how'] == 'values' else 1.)
            a = np.zeros(A.size)
            for i in range(len(ptr)-1):
                a[i, idx[ptr[i]:ptr[i+1]]] = new[ptr[i]:ptr[i+1]]
            if op['how'] == 'values':
                A.setValuesCSR(ptr, idx, new)
                A.assemble()
                self.ref[k] = a
            else:
                B = petsc_mat(a)
                A.axpy(1., df.as_backend_type(B).mat())
                self.ref[k] = self.ref[k] + a

    def fn(self, how):
        import xii
        from xii.linalg import collapse_iter
        return {'convert': xii.ii_convert, 'collapse': xii.ii_collapse, 'iter': collapse_iter.collapse,
                'mono': xii.monolithic, 'blocks': lambda x: xii.ii_convert(x, algorithm=''), 'nest': xii.nest}[how]

    def trivial(self, e):
        '''Might be the matrix itself'''
        return e[0] in ('m', 'n', 'knowsmat', 'knowscollapse') or (e[0] in '+-' and any(x[0] == 'n' or self.trivial0(x) for x in e[1:]))

    def trivial0(self, e):
        return e[0] in ('n', '+', '-')

    def do_expr(self, op):
        how, e = self.fn(op['how']), op['e']
        if op['share'] and e[0] in ('+', '*', '-') and e[1][0] != 'n':
            # The same operator object repeated in the expression
            x = build(e[1], self.obj)
            X = block_add(x, block_mul(2, x))
            v, s = value(e[1], self.ref)
            v, s = 3*v, 3*s
            what = 'shared'
        else:
            X, what = build(e, self.obj), ''
            v, s = value(e, self.ref)
        for k in kinds(e):
            self.sim.reach('expr', op['how'], k)

        def verify(A):
            self.sim.check(isinstance(A, (df.PETScMatrix, df.Matrix)), 'bad-type', 'matrix of %s is %s' % (e, type(A)))
            self.close(dense(A), v, np.max(s), '%s of %s %s' % (op['how'], what, e))
            x = petsc_vec(rnd('probe', v.shape[1]).uniform(-1, 1, v.shape[1]))
            self.close(dense(A*x), v @ dense(x), np.max(s)*v.shape[1], 'action')
        return lambda: how(X), verify, not self.trivial(e)

    def do_grid(self, op):
        how, grid = self.fn(op['how']), op['grid']
        X = block_mat([[build(e, self.obj) for e in row] for row in grid])
        vs = [[value(e, self.ref) for e in row] for row in grid]
        self.sim.reach('grid', op['how'], len(op['r']), len(op['c']), op['r'] == op['c'],
                       any(e[0] == 'n' and e[1] for row in grid for e in row))
        if op['how'] == 'nest' and any(e[0] == 'n' and e[1] for row in grid for e in row):
            how, op = self.fn('convert'), dict(op, how='convert')

        def verify(A):
            if op['how'] in ('blocks', 'iter'):
                self.sim.check(isinstance(A, block_mat) and A.blocks.shape == (len(op['r']), len(op['c'])), 'bad-type', 'blocks')
                got = []
                for i, row in enumerate(A.blocks):
                    got.append([])
                    for j, b in enumerate(row):
                        if isinstance(b, (int, float)):
                            self.sim.check(b == 0 or op['r'][i] == op['c'][j], 'bad-type', 'number in place of block')
                            got[-1].append(b*np.eye(op['r'][i], op['c'][j]))
                        else:
                            got[-1].append(dense(b))
                got = np.vstack([np.hstack(r) for r in got])
            else:
                got = dense(A)
            self.sim.check(got.shape == (sum(op['r']), sum(op['c'])), 'value', 'shape of %s of blocks %s' % (op['how'], grid))
            # Each block has scale of its own
            for i0, r, row in zip(np.cumsum(op['r']), op['r'], vs):
                for j0, c, (v, s) in zip(np.cumsum(op['c']), op['c'], row):
                    self.close(got[i0-r:i0, j0-c:j0], v, np.max(s), '%s of blocks %s' % (op['how'], grid))
        plain = any(self.trivial(e) for row in grid for e in row)
        return lambda: how(X), verify, op['how'] in ('convert', 'mono') or not plain

    def do_vec(self, op):
        import xii
        from xii.linalg.convert import bmat_sizes
        bs = [rnd('vec', op['seed'], i).uniform(-1, 1, n) for i, n in enumerate(op['sizes'])]
        b = block_vec([petsc_vec(x) for x in bs])
        if op['how'] == 'sizes':
            def verify(s):
                self.sim.check(tuple(s) == tuple(op['sizes']), 'sizes', 'sizes of block vector')
            return lambda: tuple(bmat_sizes(b)), verify, False
        how = self.fn(op['how'])

        def verify(x):
            self.close(dense(x), np.concatenate(bs), 1, 'block vector by %s' % op['how'])
            self.close(dense(b), np.concatenate(bs), 1, 'block vector is changed by %s' % op['how'])
        return lambda: how(b), verify, op['how'] != 'nest'

    def do_util(self, op):
        from xii.linalg import matrix_utils as mu, convert as cv
        how, m, n = op['how'], op['m'], op['n']
        g = rnd('util', op['seed'])
        self.sim.reach('util', how)
        if 'grid' in op:
            A = block_mat([[self.obj[x] if x else 0 for x in row] for row in op['grid']])
            val = [[self.ref[x] if x else None for x in row] for row in op['grid']]
        fresh = True
        if how == 'transpose':
            B = self.obj[m]
            B = df.as_backend_type(B).mat() if op['petsc'] else B
            f, want = lambda: mu.transpose_matrix(B), self.ref[m].T
        elif how == 'diag':
            v = g.uniform(-1, 1, n)
            d = float(v[0]) if op['petsc'] else petsc_vec(v)
            f, want = lambda: mu.diagonal_matrix(n, d), np.diag(v if not op['petsc'] else v[0]*np.ones(n))
        elif how == 'identity':
            sizes = [n, 2, n + 1][:1 + op['seed'] % 3]
            if op['petsc']:
                f, want = lambda: mu.identity_matrix(n), np.eye(n)
            else:
                f, want = lambda: cv.convert(mu.identity_matrix(sizes)), np.eye(sum(sizes))
        elif how == 'reshape':
            off = op['offsets']
            at = list(zip([0] + off[:-1], off))
            sr, sc = [row[0].shape[0] for row in val], [x.shape[1] for x in val[0]]

            def f():
                # Each group by itself
                B = mu.block_reshape(A, tuple(off) if op['petsc'] else list(off))
                self.sim.check(B.blocks.shape == (len(off), len(off)), 'reshape', 'shape of groups')
                return [cv.convert(b) if isinstance(b, block_mat) else b for b in B.blocks.flatten()]

            def verify(out):
                out = iter(out)
                for i, k in at:
                    for j, l in at:
                        b = next(out)
                        w = np.vstack([np.hstack(row[j:l]) for row in val[i:k]])
                        self.close(dense(b), w, 1 + np.abs(w).max(), 'groups')
            return f, verify, False
        elif how == 'array':
            from scipy.sparse import csr_matrix, csc_matrix
            a = self.ref[m].copy()
            k = op['seed'] % 3
            X = [a, csr_matrix(a), a[0].copy()][k]
            fresh = k < 2               # Vectors stay with the memory of the array
            f, want = lambda: cv.numpy_to_petsc(X), [a, a, a[0]][k]
        elif how == 'tonumpy':
            hs, ws = [max(x.shape[0] for x in row if x is not None) for row in val], [max(x.shape[1] for x in col if x is not None) for col in zip(*val)]
            want = np.vstack([np.hstack([np.zeros((h, w)) if x is None else x for x, w in zip(row, ws)]) for row, h in zip(val, hs)])
            f = lambda: cv.block_mat_to_numpy(A).toarray()
        elif how == 'vtonumpy':
            v = [g.uniform(-1, 1, k) for k in (n, 2, n)]
            V, want = block_vec([petsc_vec(x) for x in v]), np.concatenate(v)
            f = lambda: cv.block_vec_to_numpy(V)
        elif how == 'assembly':
            f, want = lambda: cv.block_mat_to_petsc(A), np.vstack([np.hstack(row) for row in val])
        elif how == 'rows':
            v = [g.uniform(-1, 1, n) for _ in range(1 + op['seed'] % 4)]
            V, want = [petsc_vec(x) for x in v], np.array(v)
            f = lambda: mu.row_matrix(V)
        elif how == 'lgmap':            # Makes the matrices ready for boundary conditions
            def f():
                B = cv.set_lg_map(A)
                for b in B.blocks.flatten():
                    rows, cols = df.as_backend_type(b).mat().getLGMap()
                    self.sim.check(list(rows.getIndices()) == list(range(b.size(0))) and list(cols.getIndices()) == list(range(b.size(1))), 'lgmap', 'maps')
                return cv.block_mat_to_numpy(B).toarray()
            want = np.vstack([np.hstack(row) for row in val])
        wrap = lambda x: x if isinstance(x, np.ndarray) else dense(x)
        return f, lambda out: self.close(wrap(out), want, 1 + np.abs(want).max(), how), fresh

    def do_dims(self, op):
        from xii.linalg.convert import get_dims
        from xii.linalg.convert import bmat_sizes
        X, r, c, k, how = build(op['e'], self.obj), op['r'], op['c'], op.get('k'), op.get('user')
        # Operators of the user which only know their vectors
        if how == 'left':
            X, r = block_mul(Sized(k, r), X), k
        elif how == 'right':
            X, c = block_mul(X, Sized(c, k)), k
        elif how == 'T':
            X, r, c = block_transpose(Sized(c, k)), k, c
        elif how == 'sizes':
            X, r, c = Sized(k, c, known=True), k, c
        elif how == 'bmat':
            B = block_mat([[petsc_mat(np.ones((p, q))) for q in (c, k)] for p in (r, r, k)])
            return lambda: [tuple(s) for s in bmat_sizes(B)], lambda d: self.sim.check(d == [(r, r, k), (c, k)], 'sizes', 'sizes of block matrix'), False

        def verify(d):
            self.sim.check(tuple(d) == (r, c), 'dims', lambda: 'dimensions of %s %s are %s' % (how, op['e'], d))
        return lambda: get_dims(X), verify, False


def run(plan, sim):
    Store(plan, sim).run()
