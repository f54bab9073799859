'''Block operators as operators/preconditioners of Krylov solvers of PETSc, scipy, pyamg and cbc.block'''
import numpy as np
import dolfin as df
from block import block_mat, block_vec
from petsc4py import PETSc
from alg import *

# Only methods which can't break down on the given kind of system
KSP = {'spd': ['cg', 'minres', 'gmres', 'fgmres'], 'sym': ['minres', 'gmres'], 'gen': ['gmres', 'fgmres'], 'null': ['cg', 'gmres']}
SCIPY = {'spd': ['cg', 'minres', 'gmres'], 'sym': ['minres', 'gmres'], 'gen': ['gmres'], 'null': []}
AMG = {'spd': ['cg', 'gmres', 'fgmres'], 'sym': ['gmres'], 'gen': ['gmres', 'fgmres'], 'null': []}
CBC = {'spd': ['cg', 'minres'], 'sym': ['minres'], 'gen': [], 'null': []}


def plan(rng, tier):
    systems = []
    for _ in range(rng.randint(1, 3)):
        systems.append({'n': [rng.randint(1, 6) for _ in range(rng.randint(1, 3))], 'kind': rng.choice(['spd', 'spd', 'sym', 'gen', 'null', 'null']),
                        'seed': rng.randrange(10**6), 'pc': rng.choice([None, 'diag', 'diag', 'sum', 'inv']),
                        'how': rng.choice(['plain', 'plain', 'sum', 'mul']), 'nz': rng.randint(1, 2)})
        if systems[-1]['kind'] == 'gen' and rng.random() < 0.4:
            systems[-1]['pc'] = 'tri'
        if systems[-1]['kind'] == 'null':
            systems[-1]['n'] = [max(2, k) for k in systems[-1]['n']]
    rect = {'r': [rng.randint(1, 4) for _ in range(rng.randint(1, 3))], 'c': [rng.randint(1, 4) for _ in range(rng.randint(1, 3))],
            'seed': rng.randrange(10**6)}

    def call():
        s = rng.randrange(len(systems))
        kind = systems[s]['kind']
        k = rng.random()
        base = {'s': s, 'seed': rng.randrange(10**6), 'zero': rng.random() < 0.5}
        if k < 0.45 or not SCIPY[kind]:
            return dict(base, do='ksp', type=rng.choice(KSP[kind]), mono=rng.random() < 0.3, nullspace=kind == 'null' or rng.random() < 0.1)
        if k < 0.55:
            return dict(base, do='lib', lib='scipy', method=rng.choice(SCIPY[kind]))
        if k < 0.65:
            return dict(base, do='lib', lib='pyamg', method=rng.choice(AMG[kind]))
        if k < 0.72 and CBC[kind]:
            return dict(base, do='lib', lib='cbc', method=rng.choice(CBC[kind]))
        if k < 0.85:
            return dict(base, do='act', T=rng.random() < 0.3, what=rng.choice(['op', 'op', 'pc', 'pc', 'rect']), mono=rng.random() < 0.3)
        return dict(base, do='linop', rect=rng.random() < 0.5)

    ops = []
    for _ in range(rng.randint(12, 20)):
        k = rng.random()
        if k < 0.7:
            job = call()
            if job['do'] in ('act', 'linop') and not job.get('mono') and rng.random() < 0.5:
                job['kept'] = True
            ops.append(decorate(rng, job))
            if job.get('kept') and rng.random() < 0.6:
                ops.append({'op': 'mut', 's': job['s'], 'f': rng.choice([2., 3., 0.5]), 'pc': True})
                ops.append(decorate(rng, dict(job, seed=rng.randrange(10**6))))
        elif k < 0.82:
            ops.append({'op': 'mut', 's': rng.randrange(len(systems)), 'f': rng.choice([2., 3., 0.5]), 'pc': rng.random() < 0.4})
        elif k < 0.92:
            op = gen_par(rng, call)
            # Solvers in scipy have a lock of their own (not seen by the simulator), at most one caller gets to it
            inside = [j for j in op['jobs'] if j.get('lib') == 'scipy'][1:]
            op['jobs'] = [j for j in op['jobs'] if not any(j is i for i in inside)]
            ops.append(op)
        elif k < 0.97:
            ops.append({'op': 'scribble', 'i': rng.randrange(100)})
        else:
            ops.append({'op': 'gc'})
    return {'systems': systems, 'rect': rect, 'ops': ops}


class Solvers(Alg):
    TOL = 1e-6

    def __init__(self, plan, sim):
        Alg.__init__(self, plan, sim)
        self.sys, self.made = [], {}
        for i, s in enumerate(plan['systems']):
            self.sys.append(self.system(i, s))
        r = plan['rect']
        g = rnd('rect', r['seed'])
        a = [[g.uniform(-1, 1, (p, q)) for q in r['c']] for p in r['r']]
        self.rect = block_mat([[petsc_mat(x) for x in row] for row in a]), np.vstack([np.hstack(row) for row in a])

    def system(self, k, s):
        g = rnd('sys', s['seed'])
        N = sum(s['n'])
        q = np.linalg.qr(g.uniform(-1, 1, (N, N)))[0]
        lam = g.uniform(1, 3, N)
        if s['kind'] in ('sym', 'gen'):
            lam = lam*np.where(g.uniform(size=N) < 0.5, 1, -1) if s['kind'] == 'sym' else lam
        a = (q*lam) @ q.T
        zs = []
        if s['kind'] == 'gen':
            a = 3*a + 0.5*g.uniform(-1, 1, (N, N))/np.sqrt(N)
        elif s['kind'] == 'null':
            nz = min(s['nz'], N-1)
            zs = [q[:, i] for i in range(nz)]
            lam[:nz] = 0
            a = (q*lam) @ q.T
        off = np.r_[0, np.cumsum(s['n'])]
        m = len(s['n'])

        def mat(name, a, how='plain'):
            A = petsc_mat(a) if how == 'plain' else petsc_mat(a/2)
            self.obj['%s%d' % (name, k), len(self.obj)] = A
            return A if how == 'plain' else (A + A if how == 'sum' else 2*A)
        blocks = [[mat('A', a[off[i]:off[i+1], off[j]:off[j+1]], s['how']) for j in range(m)] for i in range(m)]
        AA = block_mat(blocks)
        p, BB = None, None
        if s['pc']:
            d = np.abs(np.diag(a)) + 1
            p = np.zeros((N, N))
            grid = [[0]*m for _ in range(m)]
            for i in range(m):
                sl = slice(off[i], off[i+1])
                if s['pc'] == 'inv':
                    w = np.linalg.inv((lambda c: c @ c.T + np.eye(len(c)))(a[sl, sl]))
                else:
                    w = np.diag(1/d[sl])
                grid[i][i] = mat('B', w)
                if s['pc'] == 'sum':
                    grid[i][i] = grid[i][i] + mat('B', np.eye(s['n'][i]))
                    w = w + np.eye(s['n'][i])
                p[sl, sl] = w
            if s['pc'] == 'tri':
                for i in range(m):
                    for j in range(i):
                        w = 0.1*g.uniform(-1, 1, (s['n'][i], s['n'][j]))
                        grid[i][j] = mat('B', w)
                        p[off[i]:off[i+1], off[j]:off[j+1]] = w
            BB = block_mat(grid)
        return {'AA': AA, 'a': a, 'BB': BB, 'p': p, 'off': off, 'zs': zs, 'f': 1.}

    def op_mut(self, op):
        '''Operators follow the values of matrices'''
        for (name, i), A in self.obj.items():
            if name == 'A%d' % op['s']:
                df.as_backend_type(A).mat().scale(abs(op['f']))
            if name == 'B%d' % op['s'] and op.get('pc'):
                df.as_backend_type(A).mat().scale(abs(op['f']))
        self.sys[op['s']]['a'] = self.sys[op['s']]['a']*abs(op['f'])
        if op.get('pc') and self.sys[op['s']]['p'] is not None:
            self.sys[op['s']]['p'] = self.sys[op['s']]['p']*abs(op['f'])

    def vec(self, x, off):
        return block_vec([petsc_vec(x[p:q]) for p, q in zip(off[:-1], off[1:])])

    def problem(self, op):
        S = self.sys[op['s']]
        g = rnd('rhs', op['seed'])
        N = S['off'][-1]
        a, zs = S['a'], S['zs']
        x = g.uniform(-1, 1, N)
        for z in zs:
            x = x - z*(z @ x)
        return S, x, a @ x, (np.zeros(N) if op['zero'] else g.uniform(-1, 1, N))

    def keeper(self, op, key, make):
        '''Wrappers may be kept while values of the wrapped matrices change'''
        if not op.get('kept'):
            return make()
        if key not in self.made:
            self.made[key] = make()
        return self.made[key]

    def do_ksp(self, op):
        import xii
        from xii.linalg.convert import convert
        from xii.linalg.matrix_utils import as_petsc
        S, want, b, x0 = self.problem(op)
        zs = S['zs']
        ns = op['nullspace'] and bool(zs)
        mono = op['mono']
        AA, BB, a0 = S['AA'], S['BB'], S['a']
        self.sim.reach('ksp', op['type'], mono, ns, self.plan['systems'][op['s']]['pc'], self.plan['systems'][op['s']]['kind'], len(S['off'])-1)

        def f():
            A = convert(AA) if mono else AA
            B = (convert(BB) if mono else BB) if BB is not None else None
            Z = None
            if ns:
                Z = xii.BlockNullspace([None]*(len(S['off'])-1), [self.vec(z, S['off']) for z in zs])
            ksp = PETSc.KSP().create()
            M = xii.ii_PETScOperator(A, Z)
            ksp.setOperators(M)
            ksp.setType(op['type'])
            ksp.setTolerances(rtol=1e-10, atol=1e-12, max_it=500)
            if B is None:
                ksp.getPC().setType('none')
            else:
                xii.ii_PETScPreconditioner(B, ksp)
            bb, xx = self.vec(b, S['off']), self.vec(x0, S['off'])
            if mono:
                bb, xx = as_petsc(convert(bb)), as_petsc(convert(xx))
            else:
                bb, xx = xii.nest(bb), xii.nest(xx)
            ksp.setInitialGuessNonzero(not op['zero'] and not ns)
            ksp.solve(bb, xx)
            return dense(xx), ksp.getConvergedReason()

        def verify(out):
            x, reason = out
            # Breakdowns after the solution is found are legit
            good = np.abs(a0 @ x - b).max() < 1E-7*(1 + np.abs(b).max())
            self.sim.check(reason > 0 or good, 'no-solution', '%s reason %d' % (op, reason))
            y = x
            if ns:
                for z in zs:
                    self.close(z @ x, 0., np.abs(want).max(), 'solution has part in the nullspace %s' % op)
                    y = y - z*(z @ y)
                self.close(y, want, np.abs(want).max() + 1, 'solution by %s' % op)
            elif not zs:
                self.close(y, want, np.abs(want).max() + 1, 'solution by %s' % op)
        return f, verify, False

    def do_lib(self, op):
        from xii.linalg import krylov_api as api
        S, want, b, x0 = self.problem(op)
        sym = self.plan['systems'][op['s']]['kind'] != 'gen'
        solve = {'scipy': api.scipy_solve, 'pyamg': api.pyamg_solve, 'cbc': api.cbc_solve}[op['lib']]
        AA, BB = S['AA'], S['BB']
        if op['lib'] == 'cbc' and BB is None:
            BB = None
        self.sim.reach('lib', op['lib'], op['method'], BB is not None, sym, len(S['off'])-1)

        def f():
            bb, xx = self.vec(b, S['off']), self.vec(x0, S['off'])
            x, res = solve(op['method'], AA, bb, 1e-11, BB, xx, maxiter=400)
            self.sim.check(same(dense(bb), b), 'input-changed', 'right hand side by %s' % op['lib'])
            return dense(x)

        def verify(x):
            self.sim.close(x, want, np.abs(want).max() + 1, 'value', 'solution by %s %s' % (op['lib'], op['method']), tol=1e-5)
        return f, verify, False

    def do_act(self, op):
        '''The wrapped operator is used as matrix'''
        import xii
        from xii.linalg.convert import convert
        from xii.linalg.matrix_utils import as_petsc
        S = self.sys[op['s']]
        if op['what'] == 'pc' and S['BB'] is None:
            return None
        X, a = (S['AA'], S['a']) if op['what'] == 'op' else (S['BB'], S['p'])
        offs = S['off'], S['off']
        if op['what'] == 'rect':
            X, a = self.rect
            offs = [np.r_[0, np.cumsum(self.plan['rect'][k])] for k in 'rc']
            if op['T'] and len(offs[0]) != len(offs[1]):
                return None     # Not with transposes of cbc.block
        if op['T']:
            offs = offs[::-1]
        a = a.T if op['T'] else a
        if op['mono']:
            X = convert(X)
        v = rnd('act', op['seed']).uniform(-1, 1, a.shape[1])
        w = rnd('act2', op['seed']).uniform(-1, 1, a.shape[1])

        def f():
            xs = [self.vec(t, offs[1]) for t in (v, w)]
            ys = [self.vec(np.full(len(a), 7.), offs[0]) for _ in xs]
            xs, ys = [[as_petsc(convert(t)) if op['mono'] else xii.nest(t) for t in l] for l in (xs, ys)]
            if op['what'] in ('op', 'rect'):
                M = self.keeper(op, ('M' + op['what'], op['s']), lambda: xii.ii_PETScOperator(X, None))
                act = M.multTranspose if op['T'] else M.mult
            else:
                def make():
                    ksp = PETSc.KSP().create()
                    ksp.setOperators(xii.ii_PETScOperator(X, None))
                    return ksp, xii.ii_PETScPreconditioner(X, ksp)
                self.keep, pc = self.keeper(op, ('pc', op['s']), make)
                act = pc.applyTranspose if op['T'] else pc.apply
            for x, y in zip(xs, ys):
                act(x, y)
            for x, t in zip(xs, (v, w)):
                self.sim.check(same(dense(x), t), 'input-changed', 'argument of operator')
            return ys

        def verify(out):
            for y, t in zip(out, (v, w)):
                self.close(dense(y), a @ t, 10, 'action of %s %s' % (op['what'], op['T']))
        return f, verify, True

    def do_linop(self, op):
        from xii.linalg.krylov_api import ScipyLinOp
        S = self.sys[op['s']]
        X, a = self.rect if op['rect'] else (S['AA'], S['a'])
        v = rnd('lin', op['seed']).uniform(-1, 1, (2, a.shape[1]))

        def f():
            L = self.keeper(op, ('rect' if op['rect'] else 'sys', op['s']), lambda: ScipyLinOp(X))
            self.sim.check(tuple(L.shape) == a.shape, 'sizes', 'shape of linear operator')
            return [L.matvec(t) for t in v]

        def verify(out):
            for y, t in zip(out, v):
                self.close(y, a @ t, 10, 'linear operator')
        return f, verify, True


def run(plan, sim):
    import xii.linalg.krylov_api
    Solvers(plan, sim).run()
