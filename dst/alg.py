'''
Histories over a store of linear algebra objects. Every object has a dense
model (numpy); operations call the package, compare the outcome with the
model, and then the store must be as it was: whatever was interrupted,
repeated, interleaved with other callers, or done to earlier results.
'''
import gc
import numpy as np
import dolfin as df
from block import block_mat, block_vec
from petsc4py import PETSc
from sim import Violation, Harness, FAULT_TYPES, Interleave


def rnd(*key):
    import hashlib
    h = hashlib.sha1(repr(key).encode()).digest()
    return np.random.RandomState(int.from_bytes(h[:4], 'little'))


def petsc_mat(a):
    '''PETScMatrix with values of the array, only nonzeros are stored'''
    from scipy.sparse import csr_matrix
    a = csr_matrix(a)
    A = PETSc.Mat().createAIJ(size=a.shape, csr=(a.indptr, a.indices, a.data), comm=PETSc.COMM_WORLD)
    A.assemble()
    return df.PETScMatrix(A)


def petsc_vec(x):
    v = df.Vector(df.MPI.comm_world, len(x))
    v.set_local(np.asarray(x, dtype=float))
    v.apply('insert')
    return v


def dense(x):
    '''Array of a thing; (never shares memory with it)'''
    if isinstance(x, (int, float, np.floating, np.integer)):
        return np.array([float(x)])
    if isinstance(x, df.cpp.la.GenericVector):
        return dense(df.as_backend_type(x).vec())
    if isinstance(x, df.cpp.la.GenericMatrix):
        return dense(df.as_backend_type(x).mat())
    if isinstance(x, PETSc.Vec):
        if x.getType() == 'nest':
            return np.concatenate([dense(v) for v in x.getNestSubVecs()])
        return x.getArray(readonly=True).copy()
    if isinstance(x, PETSc.Mat):
        if x.getType() == 'nest':
            out = PETSc.Mat()
            x.convert('aij', out)
            x = out
        ptr, idx, val = x.getValuesCSR()
        a = np.zeros(x.size)
        for i in range(len(ptr)-1):
            np.add.at(a[i], idx[ptr[i]:ptr[i+1]], val[ptr[i]:ptr[i+1]])
        return a
    if isinstance(x, block_vec):
        return np.concatenate([dense(b) for b in x])
    if isinstance(x, block_mat):
        return [[dense(b) for b in row] for row in x.blocks]
    if isinstance(x, (list, tuple)):
        return [dense(b) for b in x]
    if isinstance(x, np.ndarray):
        return x.copy()
    raise Violation('bad-type', 'result is %s' % type(x))


def flat(a):
    if isinstance(a, list):
        return np.concatenate([flat(x) for x in a]) if a else np.zeros(0)
    return np.asarray(a, dtype=float).ravel()


def same(a, b):
    a, b = flat(a), flat(b)
    return a.shape == b.shape and np.array_equal(a, b)


def wreck(x):
    if isinstance(x, block_vec) or isinstance(x, (list, tuple)):
        for b in x:
            wreck(b)
    elif isinstance(x, block_mat):
        for b in x.blocks.flatten():
            wreck(b)
    elif isinstance(x, df.cpp.la.GenericVector):
        v = df.as_backend_type(x).vec()
        wreck(v)
    elif isinstance(x, df.cpp.la.GenericMatrix):
        wreck(df.as_backend_type(x).mat())
    elif isinstance(x, PETSc.Vec):
        for v in (x.getNestSubVecs() if x.getType() == 'nest' else [x]):
            v.set(1e30)
    elif isinstance(x, PETSc.Mat):
        x.scale(1e30)


class Alg:
    '''
    Subclass has do_<what>(op) -> (f, verify, fresh): f() calls the package and
    can be repeated, verify(out) compares with the model, fresh tells if result
    is storage of its own.
    '''
    TOL = 1e-9

    def __init__(self, plan, sim):
        self.plan, self.sim = plan, sim
        self.obj, self.ref = {}, {}
        self.kept = []
        self.memo = {}

    def watched(self):
        '''name -> thing which only the caller may change'''
        return self.obj

    value, wreck = staticmethod(dense), staticmethod(wreck)

    def snapshot(self):
        return {k: dense(v) for k, v in self.watched().items()}

    def unchanged(self, before, when):
        now = self.watched()
        for k, v in before.items():
            self.sim.check(k in now and same(dense(now[k]), v), 'input-changed', '%s changed by %s' % (k, when))

    def close(self, got, want, scale, what, kind='value'):
        self.sim.close(got, want, scale, kind, what, tol=self.TOL)

    def label(self, op):
        return op['do']

    # --- operations
    def op_call(self, op):
        sim = self.sim
        r = getattr(self, 'do_' + op['do'])(op)
        if r is None:
            return
        f, verify, fresh = r
        before = self.snapshot()
        for fault in op.get('faults') or ():
            sim.with_fault(f, fault)
            if sim.survived:
                verify(sim.survived[0])
            self.unchanged(before, 'an interrupted %s' % op['do'])
        out = f()
        verify(out)
        value = self.value(out)
        self.unchanged(before, op['do'])
        sim.event(op['do'], sim.num(flat(value)))
        if op.get('twice'):
            again = f()
            sim.check(same(self.value(again), value), 'not-repeatable', '%s twice' % op['do'])
            if fresh:
                self.wreck(again)
                sim.check(same(self.value(out), value), 'aliased', 'two results of %s' % op['do'])
                self.unchanged(before, 'use of result of %s' % op['do'])
        if op.get('keep') and fresh:
            self.kept.append((op['do'], out, value))
        return out

    def op_par(self, op):
        '''Callers at the same time'''
        sim = self.sim
        jobs, verify = [], []
        for j in op['jobs']:
            r = getattr(self, 'do_' + j['do'])(j)
            if r is None:
                continue
            fault = None
            if j.get('fault'):
                n = sim.crossings_of(r[0])
                if n:
                    fault = {'kind': j['fault']['kind'], 'k': 1 + int(j['fault']['at']*n)}
                    sim.count('faults.offered')
            jobs.append((r[0], fault))
            verify.append(r)
        if not jobs:
            return
        before = self.snapshot()
        inter = Interleave(jobs, op['seed'], op['p'])
        for (f, v, _), (_, fault), (status, out) in zip(verify, jobs, inter.run()):
            if status == 'raised':
                if fault is None:
                    raise out
                sim.count('faults.' + fault['kind'])
                out = f()
            v(out)
        self.unchanged(before, 'interleaved calls')
        sim.count('p.switches', inter.switches)
        sim.count('p.interleavings')
        sim.event('interleaved', inter.switches)
        sim.reach('interleaving', sim.num([x for t in inter.trace for x in t] or [0]))

    def op_scribble(self, op):
        if self.kept:
            what, out, _ = self.kept.pop(op['i'] % len(self.kept))
            before = self.snapshot()
            self.wreck(out)
            self.unchanged(before, 'use of earlier result of %s' % what)

    def op_gc(self, op):
        gc.collect()

    def run(self):
        for i, op in enumerate(self.plan['ops']):
            self.sim.step = i
            self.sim.count('ops')
            self.sim.count('op.' + (op['do'] if op['op'] == 'call' else op['op']))
            getattr(self, 'op_' + op['op'])(op)
            for what, out, value in self.kept:
                self.sim.check(same(self.value(out), value), 'aliased', 'earlier result of %s changed by %s' % (
                    what, op.get('do', op['op'])))


# ------------------------------------------------------------------ generation
FAULTKINDS = ['interrupt', 'memory', 'error', 'io']


def gen_fault(rng):
    return {'kind': rng.choice(FAULTKINDS), 'at': rng.random()}


def decorate(rng, op, p_fault=0.25, p_twice=0.2, p_keep=0.3):
    op = dict(op, op='call')
    if rng.random() < p_fault:
        op['faults'] = [gen_fault(rng) for _ in range(rng.randint(1, 2))]
    if rng.random() < p_twice:
        op['twice'] = True
    if rng.random() < p_keep:
        op['keep'] = True
    return op


def gen_par(rng, make):
    jobs = [make() for _ in range(rng.randint(2, 3))]
    if rng.random() < 0.3:
        jobs[0]['fault'] = gen_fault(rng)
    return {'op': 'par', 'jobs': jobs, 'seed': rng.randrange(10**6), 'p': rng.choice([0.02, 0.1, 0.5])}
