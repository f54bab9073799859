'''Nonlinear forms of reduced functions and their derivatives'''
from props.common import *
from forms import *
from world import components, COEF
from alg import gen_fault
import xii.nonlin.jacobian

FAMS16 = [f for f in FAMS if f not in ('flux', 'transpose')]
DEG = {'P1': 1, 'P2': 2, 'VP1': 1, 'VP2': 2, 'D0': 0, 'D1': 1, 'VD0': 0, 'VD1': 1, 'CR': 1, 'VCR': 1, 'RT1': 1, 'N1': 1, 'BD1': 1, 'D2': 2,
       'TP1': 1, 'MIX': 2, 'MX1': 1, 'R': 0}


def plan(rng, tier):
    fam = pick(rng, FAMS16)
    LEAN[0] = True
    while True:
        world, make = family(rng, fam)
        LEAN[0] = True
        forms = make(6, ['bil', 'linf'])
        # Who can be reduced to where: (reduction, elements)
        pairs = {}
        for f in forms.values():
            for t in f['terms']:
                if world['red'][t['red']]['fam'] == 'flux':
                    continue
                if t['k'] == 'bil':
                    pairs.setdefault((t['red'], f['trial'][1]), f['test'][1])
                elif t['k'] == 'linf':
                    pairs.setdefault((t['red'], t['elm']), f['test'][1])
        pairs = {k: v for k, v in pairs.items() if not (set(k + (v, )) & {'DLT', 'VDLT', 'TP1', 'MIX', 'VP2'})}
        # Average over nothing is for one kind of elements
        if pairs:
            break
    keys = sorted(pairs)
    rng.shuffle(keys)
    use = keys[:rng.randint(1, 2)]
    fields, how = [], {}        # Unknowns [mesh, elm, idx], reductions that apply to each of them

    def unknown(mesh, e):
        for i, f in enumerate(fields):
            if f[:2] == [mesh, e] and rng.random() < 0.8:
                return i
        fields.append([mesh, e, len(fields)])
        return len(fields)-1
    places = []                 # (reduction, bulk unknown, gamma unknown)
    for r, e in use:
        s = world['red'][r]
        i = unknown(s['bulk'], e)
        j = unknown(s['gamma'], pairs[r, e]) if pairs[r, e] != 'R' else i
        places.append([r, i, j])
        for r2, e2 in keys:
            s2 = world['red'][r2]
            if e2 == e and r2 != r and (s2['bulk'], s2['gamma'], s2['fam']) == (s['bulk'], s['gamma'], s['fam']):
                places.append([r2, i, j])
    cap = {1: 8, 2: 6, 3: 5}

    def tdim(mesh):
        s = world['mesh'][mesh]
        if s.get('m'):
            return {'sq': 2, 'rect': 2, 'cube': 3, 'box': 3, 'int': 1}[s['m']]
        g = s['g']
        if g in ('line', 'sheet'):
            return {'line': 1, 'sheet': 2}[g]
        if g in ('emb', 'copy', 'subold'):
            m = world['mark'][s['mark']]
            return m.get('dim', tdim(m['mesh']))
        return tdim(s['mesh']) - (1 if g == 'bdry' else 0)

    def term(k):
        '''One integral with the test function of unknown k'''
        here = [p for p in places if k in p[1:]]
        r, i, j = pick(rng, here)
        s = world['red'][r]
        mates = [p[0] for p in places if p[1] == i and world['red'][p[0]]['gamma'] == s['gamma']]
        t = {'red': r, 'fs': []}
        plain = rng.random() < 0.2
        if plain:
            t['mesh'] = fields[k][0]
            t['test'] = None
            cand = [[f, None] for f in range(len(fields)) if fields[f][0] == t['mesh']]
        else:
            t['mesh'] = s['gamma']
            both = s['gamma'] == s['bulk']
            if k == i:
                t['test'] = pick(rng, mates)
            else:
                t['test'] = None
            cand = [[i, x] for x in mates]*2 + [[j, None]] if j != i else [[i, x] for x in mates]
            if both:
                cand.append([i, None])
        left = cap[tdim(t['mesh'])] - DEG[fields[k][1]]
        for _ in range(rng.randint(1, 3)):
            f, x = pick(rng, cand)
            p = rng.randint(1, 3)
            d = DEG[fields[f][1]]
            if world['red'][r]['fam'] == 'patch' and x:
                d = 2
            while p and p*d > left:
                p -= 1
            if p:
                left -= p*d
                t['fs'].append([f, x, p])
        if left > 0 and rng.random() < 0.4:
            t['w'] = pick(rng, [['c', round(rng.uniform(0.5, 2), 3)], ['e', round(rng.uniform(0.5, 2), 3)]])
        t['c'] = pick(rng, [1, 1, 2, -1.5])
        return t
    residuals = [[term(k) for _ in range(rng.randint(1, 2))] for k in range(len(fields))]
    ops = []
    n = len(fields)
    for _ in range(rng.randint(6, 11)):
        x = rng.random()
        k, j = rng.randrange(n), rng.randrange(n)
        if x < 0.2:
            ops.append({'op': 'res', 'k': k})
        elif x < 0.4:
            ops.append({'op': 'jac', 'new': rng.random() < 0.4})
        elif x < 0.65:
            ops.append({'op': 'dir', 'k': k, 'j': j, 'new': rng.random() < 0.4})
        elif x < 0.85:
            f = pick(rng, fields)
            ops.append({'op': 'upd', 'fun': f, 'seed': rng.randrange(10**6), 'how': pick(rng, UPDATES)})
        elif x < 0.9:
            ops.append({'op': 'updc', 'i': rng.randrange(100), 'v': round(rng.uniform(0.5, 2), 3)})
        elif x < 0.95:
            ops.append({'op': 'together', 'jobs': [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randint(2, 3))],
                        'seed': rng.randrange(10**6), 'p': rng.choice([0.02, 0.1, 0.5])})
        else:
            ops.append({'op': 'gc'})
        if rng.random() < 0.25 and ops[-1]['op'] in ('res', 'jac', 'dir'):
            ops[-1]['faults'] = [gen_fault(rng)]
    ops.append({'op': 'jac', 'new': rng.random() < 0.4})
    return {'worlds': [world], 'forms': {}, 'fields': fields, 'residuals': residuals, 'ops': [dict(o, world=0) for o in ops],
            'order': rng.randrange(10**6)}


def total(E):
    return sum(c*e for c, e in zip(COEF, components(E)))


def total_num(v):
    v = np.atleast_1d(v)
    return float(np.dot(COEF[:len(v)], v))


class Nonlinear(Forms):
    def __init__(self, *args):
        Forms.__init__(self, *args)
        self.marked, self.L, self.J = {}, {}, {}

    def u(self, i):
        return self.w.fun(*self.plan['fields'][i])

    def reduced(self, i, r):
        if r is None:
            return self.u(i)
        if (i, r) not in self.marked:
            self.marked[i, r] = self.red(r).mark(self.u(i))
        return self.marked[i, r]

    def residual(self, k):
        if k not in self.L:
            mesh, key, _ = self.plan['fields'][k]
            form = 0
            for t in self.plan['residuals'][k]:
                v = df.TestFunction(self.w.space(mesh, key))
                if t['test']:
                    v = self.red(t['test']).mark(v)
                e = total(v)
                for f, r, p in t['fs']:
                    e = e*total(self.reduced(f, r))**p
                w = self.weight(t, self.red(t['red']))
                if w is not None:
                    e = w*e
                form = form + df.Constant(t['c'])*e*df.Measure('dx', domain=self.w.mesh(t['mesh']))
            self.L[k] = form
        return self.L[k]

    # --- reference
    def field(self, i, r, vec):
        mesh, key, _ = self.plan['fields'][i]
        return FE(self.w.space(mesh, key), vec) if r is None else self.red(r).field(key, vec)

    def ref(self, k, y, j=None, x=None):
        '''Value of residual k at current unknowns tested by y; or its derivative in direction x of unknown j'''
        out, scale = 0., 0.
        for t in self.plan['residuals'][k]:
            fs = [(self.field(f, r, self.w.vec(*self.plan['fields'][f])), p, f, r) for f, r, p in t['fs']]
            v = self.field(k, t['test'], y)
            w = t.get('w')
            wt = (lambda p: 1.)
            if w and w[0] == 'c':
                wt = lambda p, c=float(self.w._misc['const', w[1]]): c
            elif w:
                wt = lambda p, c=self.w._misc['expr', w[1]].t: c + p[0]
            dirs = {r: self.field(j, r, x) for _, _, f, r in fs if f == j} if j is not None else {}

            def f(c, p):
                vals = [total_num(F.at(c, p)) for F, _, _, _ in fs]
                rest = t['c']*total_num(v.at(c, p))*wt(p)
                if j is None:
                    return rest*np.prod([a**n for a, (_, n, _, _) in zip(vals, fs)])
                s = 0.
                for m, (_, n, f_, r) in enumerate(fs):
                    if f_ == j:
                        d = n*vals[m]**(n-1)*total_num(dirs[r].at(c, p))
                        s += d*np.prod([a**q for i, (a, (_, q, _, _)) in enumerate(zip(vals, fs)) if i != m])
                return rest*s
            val, sc = integrate(self.w.mesh(t['mesh']), f)
            out, scale = out + val, scale + sc
        return out, scale

    def depends(self, k, j):
        return any(f == j for t in self.plan['residuals'][k] for f, _, _ in t['fs'])

    # --- checks
    def check_block(self, k, j, A, what):
        sim = self.sim
        n, m = (self.w.space(*self.plan['fields'][i][:2]).dim() for i in (k, j))
        if not self.depends(k, j):
            sim.check(isinstance(A, (int, float)) and A == 0, 'value', '%s: derivative is %s instead of 0' % (what, type(A)))
            return
        arr = to_array(A, what)
        sim.check(arr.shape == (n, m), 'shape', '%s %s is not %s' % (what, arr.shape, (n, m)))
        for i in range(2):
            y = self.w.probe(*self.plan['fields'][k][:2], i, 'y')
            x = self.w.probe(*self.plan['fields'][j][:2], i, 'x')
            val, scale = self.ref(k, y, j, x)
            sim.close(y @ arr @ x, val, scale, 'value', '%s %d %d of %s' % (what, k, j, self.about(k)))
        sim.event('block', k, j, sim.num(arr))

    def about(self, k):
        return '+'.join('%s<%s>' % ('*'.join('%s(%s)^%d' % (self.w.spec['red'][r]['fam'] if r else '', self.plan['fields'][f][1], p)
                                             for f, r, p in t['fs']), self.w.spec['red'][t['test']]['fam'] if t['test'] else '')
                        for t in self.plan['residuals'][k])

    def check_residual(self, k):
        arr = to_array(xii.ii_convert(xii.ii_assemble(self.residual(k))), 'residual')
        y = self.w.probe(*self.plan['fields'][k][:2], 'y')
        self.sim.check(arr.shape == y.shape, 'shape', 'residual')
        val, scale = self.ref(k, y)
        self.sim.close(arr @ y, val, scale, 'value', 'residual %s' % self.about(k))
        self.sim.event('res', k, self.sim.num(arr))

    def reach_(self, k, what):
        t = self.plan['residuals'][k]
        self.sim.reach(what, self.about(k))

    def op_res(self, op):
        self.residual(op['k'])
        before = self.snapshot()
        for fault in op.get('faults') or ():
            self.sim.with_fault(lambda: xii.ii_assemble(self.L[op['k']]), fault)
        self.check_residual(op['k'])
        self.unchanged(before, 'assembly of residual')
        self.reach_(op['k'], 'res')

    def derivative(self, k, j):
        from xii.nonlin.jacobian import ii_derivative
        D = ii_derivative(self.residual(k), self.u(j))
        return D, (xii.ii_convert(xii.ii_assemble(D)) if D != 0 else D)

    def op_dir(self, op):
        k, j = op['k'], op['j']
        self.residual(k)
        before = self.snapshot()
        for fault in op.get('faults') or ():
            self.sim.with_fault(lambda: self.derivative(k, j), fault)
            self.unchanged(before, 'an interrupted derivative')
        if op['new'] or (k, j) not in self.J:
            self.J[k, j], A = self.derivative(k, j)
        else:
            D = self.J[k, j]
            A = xii.ii_convert(xii.ii_assemble(D)) if D != 0 else D
        self.check_block(k, j, A, 'derivative')
        self.unchanged(before, 'derivative')
        self.reach_(k, 'dir')
        self.check_residual(k)

    def op_jac(self, op):
        from xii.nonlin.jacobian import block_jacobian
        n = len(self.plan['fields'])
        Ls, us = [self.residual(k) for k in range(n)], [self.u(k) for k in range(n)]
        before = self.snapshot()

        def f():
            if op['new'] or 'all' not in self.J:
                self.J['all'] = block_jacobian(Ls, us)
            return xii.ii_assemble(self.J['all'])
        for fault in op.get('faults') or ():
            self.sim.with_fault(f, fault)
            self.unchanged(before, 'an interrupted jacobian')
        A = f()
        for k in range(n):
            for j in range(n):
                b = A[k][j] if n > 1 or hasattr(A, '__getitem__') else A
                self.check_block(k, j, b if isinstance(b, (int, float)) else xii.ii_convert(b), 'jacobian')
            self.reach_(k, 'jac')
        self.unchanged(before, 'jacobian')

    def op_together(self, op):
        '''Several callers compute derivatives'''
        jobs = []
        for k, j in op['jobs']:
            self.residual(k)
            jobs.append((lambda k=k, j=j: self.derivative(k, j)[1], None))
        inter = Interleave(jobs, op['seed'], op['p'])
        for (k, j), (status, A) in zip(op['jobs'], inter.run()):
            if status == 'raised':
                raise A
            self.check_block(k, j, A, 'interleaved derivative')
        self.sim.count('p.switches', inter.switches)
        self.sim.count('p.interleavings')
        self.sim.event('together', inter.switches, inter.crossings)


class NRun(Run):
    forms = Nonlinear


def run(plan, sim):
    NRun(plan, sim).run()
