'''Functions of block spaces: all the views of their coefficients agree'''
import gc
import numpy as np
import dolfin as df
from block import block_mat, block_vec
from petsc4py import PETSc
from alg import *

SPACES = [('CG', 1), ('DG', 0), ('CG', 2), ('DG', 1)]


def plan(rng, tier):
    n = rng.randint(1, 4)
    W = [rng.randrange(len(SPACES)) if i == 0 or rng.random() < 0.8 else 0 for i in range(n)]
    if n > 1 and rng.random() < 0.3:
        W[-1] = W[0]
    nf = 0
    ops = [{'op': 'new', 'kind': 'fresh'}]
    for _ in range(rng.randint(14, 26)):
        k = rng.random()
        i, c = rng.randrange(100), rng.randrange(n)
        if k < 0.12:
            ops.append({'op': 'new', 'kind': rng.choice(['fresh', 'fresh', 'functions', 'vectors', 'vector', 'repeated']), 'i': i})
        elif k < 0.3:
            ops.append({'op': 'handle', 'i': i, 'kind': rng.choice(['vector', 'petsc', 'block', 'vectors', 'item', 'nest'])})
        elif k < 0.72:
            how = rng.choice(['set_local', 'slice', 'const', 'finterp', 'interpolate', 'interpolate', 'random', 'axpy', 'scale', 'zero',
                              'set', 'sub', 'mult', 'block', 'petscarray'])
            op = {'op': 'write', 'i': i, 'j': rng.randrange(100), 'c': c, 'how': how, 'seed': rng.randrange(10**6)}
            if how == 'interpolate':
                op['src'] = [rng.choice(['const', 'expr', 'fun', 'other']) for _ in range(n)]
                op['whole'] = rng.random() < 0.3
            if rng.random() < 0.25 and how in ('interpolate', 'random', 'block', 'mult'):
                op['faults'] = [gen_fault(rng)]
            ops.append(op)
        elif k < 0.84:
            op = {'op': 'solve', 'i': i, 'seed': rng.randrange(10**6), 'pc': rng.choice(['none', 'lu', 'lu', 'amg', 'group', 'group', 'sum']),
                  'cuts': sorted(rng.sample(range(1, n), rng.randint(0, n-1))) + [n],
                  'zero': [[a, b] for a in range(n) for b in range(n) if a != b and rng.random() < 0.3],
                  'into': rng.choice(['petsc', 'handle']), 'compose': rng.random() < 0.3}
            if rng.random() < 0.3:
                op['faults'] = [gen_fault(rng)]
            ops.append(op)
        elif k < 0.9:
            ops.append({'op': 'drop', 'i': i, 'what': rng.choice(['function', 'handle'])})
        elif k < 0.95:
            ops.append({'op': 'copy', 'i': i, 'f': rng.choice([2., -1.])})
        else:
            ops.append({'op': 'gc'})
    return {'W': W, 'mesh': [rng.randint(1, 2), rng.randint(1, 3)], 'ops': ops}


class Views:
    def __init__(self, plan, sim):
        self.plan, self.sim = plan, sim
        mesh = df.UnitSquareMesh(*plan['mesh'])
        self.W = [df.FunctionSpace(mesh, *SPACES[i]) for i in plan['W']]
        self.n = [W.dim() for W in self.W]
        self.store = []         # Values which should be there
        self.fs = []            # (function, ids of storage)
        self.handles = []       # (kind, object, ids)

    # --- all the views
    def read(self, kind, h):
        if kind in ('vector', 'petsc', 'nest', 'block'):
            a, out, first = dense(h), [], 0
            for m in self.n:
                out.append(a[first:first+m])
                first += m
            return out
        if kind == 'vectors':
            return [dense(v) for v in h]
        return [dense(f.vector()) for f in h]

    def views(self):
        for f, ids in self.fs:
            yield 'function', list(f), ids
            yield 'block', f.block_vec(), ids
            yield 'vector', f.vector(), ids
        for kind, h, ids in self.handles:
            yield kind, h, ids

    def agree(self, when, besides=()):
        for kind, h, ids in self.views():
            for a, i in zip(self.read(kind, h), ids):
                if i in besides:
                    continue
                self.sim.check(a.shape == self.store[i].shape, 'view', '%s has other size after %s' % (kind, when))
                self.sim.close(a, self.store[i], np.abs(self.store[i]).max() + 1, 'view', '%s (of %d) after %s' % (
                    kind, len(ids), when), tol=1e-9)

    def attempt(self, op, f, touched):
        for fault in op.get('faults') or ():
            self.sim.with_fault(f, fault)
            # Others are as they were
            self.agree('an interrupted %s' % op.get('how', op['op']), besides=touched)
        return f()

    # --- operations
    def op_new(self, op):
        import xii
        if op['kind'] == 'fresh' or not self.fs:
            ids = list(range(len(self.store), len(self.store)+len(self.n)))
            self.store.extend(np.zeros(m) for m in self.n)
            f = xii.ii_Function(self.W)
            self.sim.check(len(f) == len(self.n) and list(f.function_space()) == list(self.W), 'bad-type', 'spaces')
        else:
            g, ids = self.fs[op['i'] % len(self.fs)]
            if op['kind'] == 'repeated':
                # Components with the same vector
                ids = [ids[self.plan['W'].index(k)] for k in self.plan['W']]
                x = g.vectors()
                f = xii.ii_Function(self.W, [x[self.plan['W'].index(k)] for k in self.plan['W']])
            elif op['kind'] == 'functions':
                f = xii.ii_Function(self.W, list(g))
            elif op['kind'] == 'vectors':
                f = xii.ii_Function(self.W, g.vectors())
            else:
                f = xii.ii_Function(self.W, list(g.block_vec()))
        self.fs.append((f, ids))

    def op_handle(self, op):
        import xii
        if not self.fs:
            return
        f, ids = self.fs[op['i'] % len(self.fs)]
        h = {'vector': f.vector, 'petsc': f.petsc_vec, 'block': f.block_vec, 'vectors': f.vectors,
             'item': lambda: [f[i] for i in range(len(f))], 'nest': lambda: xii.nest(f.block_vec())}[op['kind']]()
        self.handles.append((op['kind'], h, ids))

    def whole(self, i):
        '''PETSc vector of everything and its storage'''
        hs = [(h, ids) for k, h, ids in self.handles if k in ('vector', 'petsc', 'nest')]
        fs = [(f.vector(), ids) for f, ids in self.fs]
        alls = hs + fs
        if not alls:
            return None, None
        h, ids = alls[i % len(alls)]
        return (df.as_backend_type(h).vec() if isinstance(h, df.cpp.la.GenericVector) else h), ids

    def op_write(self, op):
        import xii
        sim, how, g = self.sim, op['how'], rnd('write', op['seed'])
        sim.reach('write', how, len(self.n))
        if how in ('axpy', 'scale', 'zero', 'set', 'sub', 'petscarray'):
            x, ids = self.whole(op['i'])
            if x is None:
                return
            if how == 'axpy':
                y, jds = self.whole(op['j'])
                if set(ids) & set(jds) or len(set(ids)) < len(ids):
                    return
                x.axpy(0.5, y)
                for i, j in zip(ids, jds):
                    self.store[i] = self.store[i] + 0.5*self.store[j]
            elif how == 'scale':
                if len(set(ids)) < len(ids):
                    return
                x.scale(-1.5)
                for i in ids:
                    self.store[i] = -1.5*self.store[i]
            elif how == 'zero':
                x.zeroEntries()
                for i in ids:
                    self.store[i] = 0*self.store[i]
            elif how == 'set':
                x.set(2.5)
                for i in ids:
                    self.store[i] = 2.5 + 0*self.store[i]
            else:
                i = ids[op['c']]
                sub = x.getNestSubVecs()[op['c']]
                new = g.uniform(-1, 1, self.n[op['c']])
                if how == 'sub':
                    sub.setValues(range(len(new)), new)
                    sub.assemble()
                else:
                    sub.getArray()[:] = new
                self.store[i] = new
            return
        if not self.fs:
            return
        f, ids = self.fs[op['i'] % len(self.fs)]
        c = op['c']
        new = g.uniform(-1, 1, self.n[c])
        if how == 'set_local':
            f[c].vector().set_local(new)
            f[c].vector().apply('insert')
            self.store[ids[c]] = new
        elif how == 'slice':
            f.vectors()[c][:] = new
            self.store[ids[c]] = new
        elif how == 'const':
            f[c].assign(df.Constant(new[0]))
            self.store[ids[c]] = new[0] + 0*self.store[ids[c]]
        elif how == 'finterp':
            e = df.Expression('a*x[0] + x[1]', a=new[0], degree=1)
            f[c].interpolate(e)
            self.store[ids[c]] = dense(df.interpolate(e, self.W[c]).vector())
        elif how == 'block':
            b = f.block_vec()

            def act():
                b.zero() if hasattr(b, 'zero') else None
                for x in b:
                    x.zero()
            self.attempt(op, act, ids)
            for i in ids:
                self.store[i] = 0*self.store[i]
        elif how == 'mult':
            if len(set(ids)) < len(ids):
                return
            a = [[g.uniform(-1, 1, (p, q)) for q in self.n] for p in self.n]
            A = xii.nest(block_mat([[petsc_mat(x) for x in row] for row in a]))
            xs = [g.uniform(-1, 1, q) for q in self.n]
            x = xii.nest(block_vec([petsc_vec(v) for v in xs]))
            y = f.petsc_vec()
            A.mult(x, y)
            for k, i in enumerate(ids):
                self.store[i] = sum(a[k][j] @ xs[j] for j in range(len(xs)))
        elif how == 'random':
            self.attempt(op, f.randomize, ids)
            for k, i in enumerate(ids):
                self.store[i] = dense(f[k].vector())    # Whatever it is, all views agree
                sim.check(self.n[k] < 2 or len(np.unique(self.store[i])) > 1, 'random', 'values are not random')
            for i in set(ids):
                for j in set(ids):
                    sim.check(i == j or self.n[ids.index(i)] != self.n[ids.index(j)] or not np.array_equal(self.store[i], self.store[j]),
                              'random', 'components have the same values')
        elif how == 'interpolate':
            srcs, vals = [], []
            for k, s in enumerate(op['src']):
                v = g.uniform(-1, 1, 2)
                if s == 'const':
                    srcs.append(df.Constant(v[0]))
                elif s == 'expr':
                    srcs.append(df.Expression('a*x[0] - x[1]', a=v[0], degree=1))
                elif s == 'fun':
                    w = df.Function(df.FunctionSpace(self.W[k].mesh(), 'CG', 2))
                    w.vector().set_local(g.uniform(-1, 1, w.vector().size()))
                    srcs.append(w)
                else:
                    srcs.append(self.fs[op['j'] % len(self.fs)][0][k])
            if op['whole']:
                srcs = self.fs[op['j'] % len(self.fs)][0]
            vals = [dense(df.interpolate(s, W).vector()) for s, W in zip(srcs, self.W)]
            out = self.attempt(op, lambda: f.interpolate(srcs), ids)
            sim.check(out is f, 'bad-type', 'interpolate returns the function')
            for i, v in zip(ids, vals):
                self.store[i] = v

    def op_copy(self, op):
        '''A copy is not wired'''
        if not self.fs:
            return
        f, ids = self.fs[op['i'] % len(self.fs)]
        for x in (f.vector().copy(), f.block_vec().copy()):
            want = np.concatenate([self.store[i] for i in ids])
            self.sim.close(dense(x), want, np.abs(want).max() + 1, 'copy', 'copy of the coefficients')
            wreck(x)

    def op_solve(self, op):
        import xii
        from block.algebraic.petsc import LU, AMG
        sim = self.sim
        if not self.fs:
            return
        f, ids = self.fs[op['i'] % len(self.fs)]
        if len(set(ids)) != len(ids):
            return
        g = rnd('solve', op['seed'])
        N = len(self.n)
        a = [[g.uniform(-1, 1, (p, q)) for q in self.n] for p in self.n]
        for i in range(N):
            a[i][i] = a[i][i] + np.diag(g.uniform(2, 3, self.n[i])*sum(self.n))
        for i, j in op['zero']:
            a[i][j] = 0*a[i][j]
        AA = block_mat([[petsc_mat(x) if [i, j] not in op['zero'] else 0 for j, x in enumerate(row)] for i, row in enumerate(a)])
        if op['compose']:
            for i in range(N):
                for j in range(N):
                    if [i, j] not in op['zero']:
                        AA[i, j] = 0.5*petsc_mat(2*a[i][j])
        a = np.vstack([np.hstack(row) for row in a])
        bs = [g.uniform(-1, 1, p) for p in self.n]
        want = np.linalg.solve(a, np.concatenate(bs))
        cuts = op['cuts']
        pcs = op['pc'] if N > 1 or op['pc'] not in ('group', 'sum') else 'lu'
        sim.reach('solve', pcs, N, tuple(cuts) if pcs == 'group' else '')
        groups = [list(range(p, q)) for p, q in zip([0] + cuts[:-1], cuts)]

        applied = []

        def act():
            A, b = xii.nest(AA), xii.nest(block_vec([petsc_vec(x) for x in bs]))
            ksp = PETSc.KSP().create()
            ksp.setType('gmres')
            ksp.setTolerances(rtol=1e-13, max_it=500)
            pc = ksp.getPC()
            ksp.setOperators(A)
            keep = []
            if pcs == 'none':
                pc.setType('none')
            else:
                cls = AMG if pcs == 'amg' else LU
                off = [0] + list(np.cumsum(self.n))
                gr = groups if pcs == 'group' else [[i] for i in range(N)]
                mats = [petsc_mat(a[off[g[0]]:off[g[-1]+1], off[g[0]]:off[g[-1]+1]]) for g in gr]
                if pcs == 'sum':
                    more = [2*m for m in (a[off[g[0]]:off[g[-1]+1], off[g[0]]:off[g[-1]+1]] for g in gr)]
                    more = [m + np.diag(np.diag(m)) for m in more]
                    B = block_mat([[LU(mats[i]) + LU(petsc_mat(more[i])) if i == j else 0 for j in range(len(gr))] for i in range(len(gr))])
                else:
                    more = None
                    B = block_mat([[cls(mats[i]) if i == j else 0 for j in range(len(gr))] for i in range(len(gr))])
                if pcs == 'group':
                    R = xii.ReductionOperator(list(cuts), self.W)
                    B = (R.T)*B*R
                if N > 1:
                    pc.setType('fieldsplit')
                    pc.setFieldSplitType(PETSc.PC.CompositeType.ADDITIVE)
                pc.setOperators(A)
                Bmat = xii.pc_nest(pc, B, A)
                ksp.setOperators(A, Bmat)
                keep.append((B, Bmat))
            x = f.petsc_vec()
            ksp.solve(b, x)
            done = ksp.getConvergedReason(), ksp.getIterationNumber()
            if pcs not in ('none', 'amg'):
                # The preconditioner as it was put together
                y = b.duplicate()
                y.set(0)
                pc.apply(b, y)
                rhs = np.concatenate(bs)
                pcwant = np.zeros_like(rhs)
                for i, g in enumerate(gr):
                    sl = slice(off[g[0]], off[g[-1]+1])
                    pcwant[sl] = np.linalg.solve(a[sl, sl], rhs[sl]) + (np.linalg.solve(more[i], rhs[sl]) if more else 0)
                applied.append((y.getArray().copy() if y.getType() != 'nest' else
                                np.concatenate([v.getArray().copy() for v in y.getNestSubVecs()]), pcwant))
            return done
        if pcs == 'group' and len(groups) == 1:
            return
        reason, its = self.attempt(op, act, ids)
        sim.check(reason > 0, 'no-solution', 'reason %d with %s' % (reason, pcs))
        for y, pcwant in applied[-1:]:
            sim.close(y, pcwant, np.abs(pcwant).max(), 'preconditioner', 'action of %s' % pcs)
        x = np.concatenate([dense(fi.vector()) for fi in f])
        sim.close(x, want, np.abs(want).max(), 'solution', 'solution by %s' % pcs, tol=1e-6)
        first = 0
        for i, m in zip(ids, self.n):
            self.store[i] = x[first:first+m]
            first += m
        sim.event('solved', pcs, its)

    def op_drop(self, op):
        lst = self.fs if op['what'] == 'function' else self.handles
        if lst:
            lst.pop(op['i'] % len(lst))

    def op_gc(self, op):
        gc.collect()

    def run(self):
        for i, op in enumerate(self.plan['ops']):
            self.sim.step = i
            self.sim.count('ops')
            self.sim.count('op.' + op.get('how', op['op']))
            getattr(self, 'op_' + op['op'])(op)
            self.agree(op.get('how', op['op']))
            self.sim.event(op['op'], self.sim.num(np.concatenate(self.store)))


def run(plan, sim):
    Views(plan, sim).run()
