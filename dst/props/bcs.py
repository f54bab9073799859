'''Boundary conditions of block systems, also those which change in time'''
import numpy as np
import dolfin as df
from alg import *
from block import block_mat, block_vec
from block.block_compose import block_mul, block_add

ELMS = [('CG', 1, 0), ('CG', 2, 0), ('CG', 1, 2), ('DG', 0, 0)]


def plan(rng, tier):
    mesh = {'kind': rng.choice(['interval', 'square', 'square']), 'n': rng.randint(1, 3)}
    nb = rng.choice([1, 2, 2, 3])
    spaces = [rng.randrange(3 if i == 0 else 4) for i in range(nb)]
    bcs = []           # Pool of conditions for the blocks
    for i, e in enumerate(spaces):
        for _ in range(rng.randint(0, 3) if ELMS[e][0] == 'CG' else 0):
            kind = rng.choice(['const', 'const', 'fun', 'expr', 'dict'])
            sub = rng.randrange(2) if ELMS[e][2] and kind == 'const' and rng.random() < 0.5 else None
            bcs.append({'block': i, 'kind': kind, 'tag': rng.choice([1, 1, 2, 3, 9]), 'sub': sub,
                        'seed': rng.randrange(10**6), 'v': rng.choice([0, 1, -2.5])})
    if not bcs:
        bcs.append({'block': 0, 'kind': 'const', 'tag': 1, 'sub': None, 'seed': 1, 'v': 2.})
    systems = {}
    for s in range(rng.randint(1, 3)):
        systems['S%d' % s] = {'seed': rng.randrange(10**6), 'p': rng.choice([0.2, 0.6, 1.]),
                              'zero': [[i, j] for i in range(nb) for j in range(nb) if i != j and rng.random() < 0.2],
                              'sum': rng.random() < 0.3, 'wrap': nb == 1 and rng.random() < 0.7}

    def call():
        if calls and rng.random() < 0.45:
            return {'do': 'applyb', 'which': rng.randrange(8), 'seed': rng.randrange(10**6)}
        if rng.random() < 0.1:
            return {'do': 'split', 'seed': rng.randrange(10**6), 'by': rng.choice(['spaces', 'list', 'array', 'is']),
                    'sys': rng.choice(sorted(systems))}
        calls.append(1)
        return {'do': 'bc', 'sys': rng.choice(sorted(systems)), 'bcs': sorted(rng.sample(range(len(bcs)), rng.randint(0, len(bcs)))),
                'spec': rng.choice(['list', 'list', 'dict', 'single', 'none']), 'diag': rng.choice([1., 1., 1., 2., -0.5]),
                'sym': rng.random() < 0.7, 'apply_b': rng.random() < 0.6, 'b': rng.choice(['given', 'given', 'none']),
                'seed': rng.randrange(10**6)}
    calls, ops = [], []
    for _ in range(rng.randint(12, 20)):
        k = rng.random()
        if k < 0.6:
            ops.append(decorate(rng, call()))
        elif k < 0.72:
            ops.append({'op': 'time', 'i': rng.randrange(len(bcs)), 'v': round(rng.uniform(-2, 2), 3)*rng.choice([1, 1, 1e-9, 1e5])})
            if rng.random() < 0.5:
                # Little later
                ops.append(decorate(rng, {'do': 'applyb', 'which': rng.randrange(8), 'seed': rng.randrange(10**6), 'tiny': rng.random() < 0.5}))
                ops.append(dict(ops[-2], v=ops[-2]['v']*(1 + rng.choice([1e-3, 1e-6, 1e-8]))))
                ops.append(dict(ops[-2], seed=rng.randrange(10**6)))
        elif k < 0.8:
            ops.append({'op': 'mut', 'name': rng.choice(sorted(systems)), 'f': rng.choice([2., -1., 0.5])})
        elif k < 0.9:
            ops.append(gen_par(rng, call))
        elif k < 0.96:
            ops.append({'op': 'scribble', 'i': rng.randrange(100)})
        else:
            ops.append({'op': rng.choice(['gc', 'pool'])})
    return {'mesh': mesh, 'spaces': spaces, 'bcs': bcs, 'systems': systems, 'ops': ops}


class Systems(Alg):
    def __init__(self, plan, sim):
        Alg.__init__(self, plan, sim)
        m = plan['mesh']
        self.mesh = df.UnitIntervalMesh(m['n'] + 1) if m['kind'] == 'interval' else df.UnitSquareMesh(m['n'], m['n'])
        cell = self.mesh.ufl_cell()
        self.W = []
        for e in plan['spaces']:
            fam, deg, dim = ELMS[e]
            self.W.append(df.FunctionSpace(self.mesh, df.VectorElement(fam, cell, deg, dim) if dim else df.FiniteElement(fam, cell, deg)))
        self.dims = [W.dim() for W in self.W]
        self.off = np.cumsum([0] + self.dims)
        tdim = self.mesh.topology().dim()
        self.facets = df.MeshFunction('size_t', self.mesh, tdim-1, 0)
        self.mesh.init(tdim-1, tdim)
        for i, f in enumerate(df.facets(self.mesh)):
            self.facets[f] = (1 + i % 3) if (f.exterior() or i % 7 == 3) else 0
        self.vals, self.bcs = [], []
        for i, c in enumerate(plan['bcs']):
            self.condition(i, c)
        self.sys, self.applied = {}, []
        for k, s in sorted(plan['systems'].items()):
            self.system(k, s)

    def condition(self, i, c):
        V = self.W[c['block']]
        vec = V.num_sub_spaces() > 0 and c['sub'] is None
        if c['kind'] == 'const':
            v = df.Constant((c['v'], 1.) if vec else c['v'])
        elif c['kind'] == 'expr':
            v = df.Expression(('t + x[0]', 't') if vec else 't + x[0]', t=c['v'], degree=1)
        elif c['kind'] == 'fun':
            v = df.Function(V)
            v.vector().set_local(rnd('bcfun', c['seed']).uniform(-1, 1, V.dim()))
        else:
            g = rnd('dict', c['seed'])
            v = {int(d): float(x) for d, x in zip(g.choice(V.dim(), min(2, V.dim()), replace=False), g.uniform(-1, 1, 2))}
            self.vals.append(v)
            self.bcs.append(v)
            return
        self.vals.append(v)
        self.bcs.append(df.DirichletBC(V if c['sub'] is None else V.sub(c['sub']), v, self.facets, c['tag']))

    def system(self, k, s):
        g = rnd('sys', s['seed'])
        n = len(self.W)
        blocks, ref = [[0]*n for _ in range(n)], np.zeros((self.off[-1], self.off[-1]))
        for i in range(n):
            for j in range(n):
                if [i, j] in s['zero']:
                    continue
                a = g.uniform(-1, 1, (self.dims[i], self.dims[j]))*(g.uniform(size=(self.dims[i], self.dims[j])) < s['p'])
                A = petsc_mat(a)
                self.obj['%s %d%d' % (k, i, j)] = A
                if s['sum'] and i != j:
                    blocks[i][j] = block_add(A, block_mul(2, A))
                    a = 3*a
                else:
                    blocks[i][j] = A
                ref[self.off[i]:self.off[i+1], self.off[j]:self.off[j+1]] = a
        self.sys[k] = (blocks[0][0] if s['wrap'] else block_mat(blocks), ref)

    def watched(self):
        out = dict(self.obj)
        for i, v in enumerate(self.vals):
            if isinstance(v, df.Function):
                out['value of bc %d' % i] = v.vector()
            elif isinstance(v, dict):
                out['value of bc %d' % i] = np.array(sorted(v.items()))
        return out

    # --- model
    def current(self, chosen):
        '''Later conditions win -> {global dof: value}'''
        out = {}
        for k in chosen:
            c, bc = self.plan['bcs'][k], self.bcs[k]
            vals = bc if isinstance(bc, dict) else bc.get_boundary_values()
            out.update({int(self.off[c['block']] + d): v for d, v in vals.items()})
        return out

    @staticmethod
    def model(a, b, vals, diag, sym):
        a, b = a.copy(), b.copy()
        rows = sorted(vals)
        x = np.zeros(len(b))
        x[rows] = [vals[r] for r in rows]
        if sym:
            b -= a @ x
            a[:, rows] = 0
        a[rows, :] = 0
        a[rows, rows] = diag
        b[rows] = diag*x[rows]
        return a, b

    def size(self, a, b, vals):
        '''Magnitude of the numbers that enter (for rounding)'''
        x = np.zeros(len(b))
        for r, v in vals.items():
            x[r] = abs(v)
        return 5*len(b) + 1e-4*np.max(np.abs(a) @ x + x)

    def specify(self, op, wrapped):
        chosen = sorted(op['bcs'], key=lambda k: (self.plan['bcs'][k]['block'], k))
        per = [[self.bcs[k] for k in chosen if self.plan['bcs'][k]['block'] == i] for i in range(len(self.W))]
        if op['spec'] == 'none' and not chosen:
            return None, chosen
        if op['spec'] == 'dict':
            return {i: p for i, p in enumerate(per) if p}, chosen
        if op['spec'] == 'single':
            # (for a plain matrix dict means conditions by blocks)
            per = [p[0] if len(p) == 1 and not (wrapped and isinstance(p[0], dict)) else p for p in per]
        return (per[0] if wrapped else per), chosen

    # --- operations
    def rhs(self, seed, wrapped):
        g = rnd('rhs', seed)
        bs = [petsc_vec(g.uniform(-1, 1, n)) for n in self.dims]
        return bs[0] if wrapped else block_vec(bs)

    def do_bc(self, op):
        import xii
        A, a = self.sys[op['sys']]
        wrapped = self.plan['systems'][op['sys']]['wrap']
        a = a.copy()
        spec, chosen = self.specify(op, wrapped)
        vals = self.current(chosen)
        if spec is None and op['b'] == 'none':
            return
        b = None if op['b'] == 'none' and chosen else self.rhs(op['seed'], wrapped)
        b0 = np.zeros(self.off[-1]) if b is None else dense(b)
        self.sim.reach('bc', op['spec'], len(self.W), wrapped, op['sym'], op['diag'] == 1, op['apply_b'], op['b'],
                       sorted(set(self.plan['bcs'][k]['kind'] for k in chosen)), bool(vals))

        def f():
            return xii.apply_bc(A, b, spec, diag_val=op['diag'], symmetric=op['sym'], return_apply_b=op['apply_b'])[:3]

        def pack(out):
            self.sim.check(len(out) == (3 if op['apply_b'] else 2), 'bad-type', '%d values returned' % len(out))
            if op['apply_b']:
                self.last.append((out[2], a, chosen, op, wrapped))
            return out[:2]

        def verify(out):
            A1, b1 = out
            if not wrapped:
                self.sim.check(isinstance(A1, block_mat) and isinstance(b1, block_vec), 'bad-type', '%s %s' % (type(A1), type(b1)))
                full = np.zeros_like(a)
                for i, row in enumerate(A1.blocks):
                    for j, x in enumerate(row):
                        blk = dense(x)
                        if isinstance(x, (int, float)):
                            blk = np.zeros((self.dims[i], self.dims[j]))
                            self.sim.check(x == 0, 'bad-type', 'number')
                        elif not isinstance(x, (df.PETScMatrix, df.Matrix)) or blk.shape != (self.dims[i], self.dims[j]):
                            raise Violation('bad-type', 'block %s %s' % (type(x), blk.shape))
                        full[self.off[i]:self.off[i+1], self.off[j]:self.off[j+1]] = blk
            else:
                full = dense(A1)
            want_a, want_b = self.model(a, b0, vals, op['diag'], op['sym'])
            self.close(full, want_a, max(1, np.max(np.abs(a))), 'matrix with bcs %s' % op)
            self.close(dense(b1), want_b, self.size(a, b0, vals), 'vector with bcs %s' % op)
            if b is not None:
                self.sim.check(same(dense(b), b0), 'input-changed', 'right hand side is changed')

        def g():
            self.last = []
            return pack(f())
        # Nothing to do returns what was given, composed blocks cannot be looked at
        fresh = bool(chosen)
        if not fresh:
            verify0 = verify
            verify = (lambda out: None) if self.plan['systems'][op['sys']]['sum'] else verify0
            h = g
            if self.plan['systems'][op['sys']]['sum']:
                g = lambda: [h(), ()][1]
        return g, verify, fresh

    def op_call(self, op):
        self.last = []
        Alg.op_call(self, op)
        if op['do'] == 'bc':
            self.applied.extend(self.last[-1:])

    def do_applyb(self, op):
        if not self.applied:
            return
        fn, a, chosen, how, wrapped = self.applied[op['which'] % len(self.applied)]
        vals = self.current(chosen)
        b0 = dense(self.rhs(op['seed'], wrapped))
        self.sim.reach('applyb', how['spec'], how['sym'], how['diag'] == 1, wrapped, bool(vals))

        def f():
            b = self.rhs(op['seed'], wrapped)       # Vector is changed in place
            out = fn(b)
            return [out, b]

        def verify(out):
            _, want = self.model(a, b0, vals, how['diag'], how['sym'])
            self.close(dense(out[0]), want, self.size(a, b0, vals), 'apply_b of %s' % how)
            self.close(dense(out[1]), want, self.size(a, b0, vals), 'apply_b in place')
        return f, verify, False

    def do_split(self, op):
        from xii.linalg.bc_apply import as_block
        A, a = self.sys[op['sys']]
        n = len(self.W)
        x = rnd('split', op['seed']).uniform(-1, 1, self.off[-1])
        v, M = petsc_vec(x), df.Matrix(petsc_mat(a))
        idx = [np.arange(self.off[i], self.off[i+1]) for i in range(n)]
        if op['by'] in ('list', 'array') and op['seed'] % 2:
            perm = rnd('perm', op['seed']).permutation(self.off[-1])
            idx = [perm[i] for i in idx]
        how = {'spaces': self.W, 'list': [[int(i) for i in ix] for ix in idx], 'array': idx,
               'is': [PETSc.IS().createGeneral(np.asarray(i, dtype='int32')) for i in idx]}[op['by']]
        self.sim.reach('split', op['by'], n)

        def f():
            return [as_block(v, how), as_block(M, how)]

        def verify(out):
            bs, As = out
            for i in range(n):
                self.close(dense(bs[i]), x[idx[i]], 1, 'part of vector')
                for j in range(n):
                    self.close(dense(As[i][j]), a[np.ix_(idx[i], idx[j])], 1, 'part of matrix')
        return f, verify, True

    def op_time(self, op):
        c, v = self.plan['bcs'][op['i']], self.vals[op['i']]
        if c['kind'] == 'const':
            v.assign(df.Constant((op['v'], -op['v'])) if len(v.values()) > 1 else op['v'])
        elif c['kind'] == 'expr':
            v.t = op['v']
        elif c['kind'] == 'fun':
            v.vector().set_local(op['v']*rnd('bcfun', c['seed']).uniform(-1, 1, v.vector().size()))
        else:
            for k in v:
                v[k] += op['v']

    def op_mut(self, op):
        '''System is scaled by its owner'''
        A, a = self.sys[op['name']]
        for k, M in self.obj.items():
            if k.startswith(op['name'] + ' '):
                df.as_backend_type(M).mat().scale(op['f'])
        self.sys[op['name']] = (A, op['f']*a)

    def op_pool(self, op):
        '''Products with matrices leave values in pools of vectors'''
        for k, M in sorted(self.obj.items()):
            for d in (0, 1):
                x = M.create_vec(d)
                x[:] = 7.
                del x


def run(plan, sim):
    Systems(plan, sim).run()
