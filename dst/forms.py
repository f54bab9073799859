'''
Forms of a plan: construction through UFL and fenics_ii, reference values of
their assembled tensors on probing vectors, execution of histories of assembly.

form = {'terms': [term], 'test': [mesh, elm] | None, 'trial': ... | None}
term = {'k': kind, 'red': name, 'elm': key, 'q': key, 'w': weight, 'tags': [...] | None, 'c': number}

kinds: bil   <reduced trial, test>          bilT  <trial, reduced test>
       TT    <reduced trial, reduced test>  lin   <coefficient, reduced test>
       linf  <reduced coefficient, test>    val   <reduced coefficient, coefficient>
       plain <trial, test> nothing reduced (delegated to dolfin)
       plainlin <coefficient, test>
'''
import gc
import random
import numpy as np
import dolfin as df
import xii
from block import block_mat, block_vec
from refmodel import FE, integrate, geo, Geo
from reds import make_red
from sim import Violation, Harness, FAULT_TYPES, Interleave
from world import World, contract, contract_num, to_array, rng_of, elm, vs_of


def wreck(A):
    '''The caller does what it wants with the result'''
    if isinstance(A, df.cpp.la.GenericVector):
        A[:] = 1e30
    else:
        df.as_backend_type(A).mat().scale(1e30)


class Forms:
    '''Forms over one world'''
    def __init__(self, plan, sim, world):
        self.plan, self.sim = plan, sim
        self.w = World(world, sim)
        self.reds, self.built, self.ref_cache = {}, {}, {}
        self.seen = {}        # id -> last result as array
        self.kept = []        # (id, result object, exact copy of its values)

    def red(self, name):
        if name not in self.reds:
            self.reds[name] = make_red(self.w, name)
        return self.reds[name]

    # ------------------------------------------------------------ UFL side
    def side(self, spec, arg):
        '''Argument, [mesh, elm]'''
        V = self.w.space(*spec)
        return (df.TestFunction if arg == 0 else df.TrialFunction)(V)

    def weight(self, t, red):
        w = t.get('w')
        if not w:
            return None
        if w[0] == 'c':
            k = ('const', w[1])
            if k not in self.w._misc:
                self.w._misc[k] = df.Constant(w[1])
            return self.w._misc[k]
        if w[0] == 'e':          # User's expression with a parameter
            k = ('expr', w[1])
            if k not in self.w._misc:
                self.w._misc[k] = df.Expression('t + x[0]', t=w[1], degree=1)
            return self.w._misc[k]
        if w[0] == 'g':          # Coefficient on the mesh of integration
            return self.w.fun(red.gamma, w[1], w[2])
        if w[0] == 'r':          # Reduced coefficient
            return red.mark(self.w.fun(red.bulk, w[1], w[2]))
        raise Harness(w)

    def marked(self, red, name, f, over=None):
        '''Reduced coefficient; caller can keep these and reduce them again'''
        if over:
            f = self.marked(self.red(over), over, f)
        if not self.plan.get('marks'):
            return red.mark(f)
        at = ('mark', name, f)
        if at not in self.w._misc:
            self.w._misc[at] = red.mark(f)
        return self.w._misc[at]

    def term(self, t, form):
        k = t['k']
        red = self.red(t['red'])
        dx = red.measure(t.get('tags'), t.get('deg'))
        w = self.w
        if k == 'bil':
            a, b = red.mark(self.side(form['trial'], 1)), self.side(form['test'], 0)
        elif k == 'bilT':
            a, b = self.side(form['trial'], 1), red.mark(self.side(form['test'], 0))
        elif k == 'TT':
            red2 = self.red(t.get('red2', t['red']))
            a, b = red.mark(self.side(form['trial'], 1)), red2.mark(self.side(form['test'], 0))
        elif k == 'lin':
            a, b = w.fun(red.gamma, t['q'], t.get('qi', 0)), red.mark(self.side(form['test'], 0))
        elif k == 'linr':
            a, b = self.marked(red, t['red'], w.fun(red.bulk, t['q'], t.get('qi', 0)), t.get('over')), red.mark(self.side(form['test'], 0))
        elif k == 'linf':
            a, b = self.marked(red, t['red'], w.fun(red.bulk, t['elm'], t.get('qi', 0)), t.get('over')), self.side(form['test'], 0)
        elif k == 'val':
            a, b = self.marked(red, t['red'], w.fun(red.bulk, t['elm'], t.get('qi', 0)), t.get('over')), w.fun(red.gamma, t['q'], t.get('qj', 0))
        elif k == 'plain':
            a, b = self.side(form['trial'], 1), self.side(form['test'], 0)
            dx = df.Measure('dx', domain=w.mesh(form['test'][0]))
        elif k == 'plainlin':
            a, b = w.fun(form['test'][0], t['q'], t.get('qi', 0)), self.side(form['test'], 0)
            dx = df.Measure('dx', domain=w.mesh(form['test'][0]))
        else:
            raise Harness(k)
        e = contract(a, b) if not t.get('swap') else contract(b, a)
        wt = self.weight(t, red) if not k.startswith('plain') else None
        if wt is not None:
            e = wt*e if not t.get('swap') else e*wt
        if t.get('c', 1) != 1:
            e = df.Constant(t['c'])*e if not t.get('swap') else e*t['c']
        return e*dx

    def build(self, fid):
        if fid not in self.built:
            form = self.plan['forms'][fid]
            terms = [self.term(t, form) for t in form['terms']]
            if self.plan.get('reverse'):
                terms.reverse()
            f = terms[0]
            for x in terms[1:]:
                f = f + x
            self.built[fid] = f
        return self.built[fid]

    # ------------------------------------------------------------ reference
    def fields(self, t, form, y, x):
        '''(A field, shape), (B field, shape), weight field, mesh, cells'''
        k = t['k']
        red = self.red(t['red'])
        w = self.w
        fe = lambda spec, vec: ((FE(w.space(*spec), vec) if k.startswith('plain') else red.other(spec, vec)),
                                w.space(*spec).ufl_element().value_shape())
        rd = lambda r, key, vec: (r.field(key, vec), r.shape(key))
        if k == 'bil':
            A, B = rd(red, form['trial'][1], x), fe(form['test'], y)
        elif k == 'bilT':
            A, B = fe(form['trial'], x), rd(red, form['test'][1], y)
        elif k == 'TT':
            A, B = rd(red, form['trial'][1], x), rd(self.red(t.get('red2', t['red'])), form['test'][1], y)
        elif k == 'lin':
            A, B = fe([red.gamma, t['q']], w.vec(red.gamma, t['q'], t.get('qi', 0))), rd(red, form['test'][1], y)
        elif k == 'linr':
            A, B = rd(red, t['q'], w.vec(red.bulk, t['q'], t.get('qi', 0))), rd(red, form['test'][1], y)
        elif k == 'linf':
            A, B = rd(red, t['elm'], w.vec(red.bulk, t['elm'], t.get('qi', 0))), fe(form['test'], y)
        elif k == 'val':
            A = rd(red, t['elm'], w.vec(red.bulk, t['elm'], t.get('qi', 0)))
            B = fe([red.gamma, t['q']], w.vec(red.gamma, t['q'], t.get('qj', 0)))
        elif k == 'plain':
            A, B = fe(form['trial'], x), fe(form['test'], y)
        elif k == 'plainlin':
            A, B = fe([form['test'][0], t['q']], w.vec(form['test'][0], t['q'], t.get('qi', 0))), fe(form['test'], y)
        mesh = w.mesh(form['test'][0]) if k.startswith('plain') else red.mesh
        cells = red.cells(t.get('tags')) if not k.startswith('plain') else None
        W = None
        wt = t.get('w')
        if wt and not k.startswith('plain'):
            if wt[0] == 'c':
                const = float(self.w._misc['const', wt[1]])
                W = lambda c, p: const
            elif wt[0] == 'e':
                t0 = self.w._misc['expr', wt[1]].t
                W = lambda c, p: t0 + p[0]
            elif wt[0] == 'g':
                f = red.other((red.gamma, wt[1]), w.vec(red.gamma, wt[1], wt[2]))
                W = lambda c, p: f.at(c, p)[0]
            else:
                f = red.field(wt[1], w.vec(red.bulk, wt[1], wt[2]))
                W = lambda c, p: f.at(c, p)[0]
        return A, B, W, mesh, cells

    def reference(self, form, y=None, x=None):
        total, scale = 0., 0.
        for t in form['terms']:
            (A, sa), (B, sb), W, mesh, cells = self.fields(t, form, y, x)
            c0 = t.get('c', 1)

            def f(c, p):
                v = c0*contract_num(A.at(c, p), sa, B.at(c, p), sb)
                return v if W is None else v*W(c, p)
            v, s = integrate(mesh, f, cells, lo=(geo(mesh).tdim > 1))
            total, scale = total + v, scale + s
        return total, scale

    # -------------------------------------------------------------- execution
    def assemble(self, fid, convert=True):
        A = xii.ii_assemble(self.build(fid))
        return xii.ii_convert(A) if convert else A

    def verify(self, fid, A, what='', lazy=None):
        '''Compare the assembled thing with the reference'''
        sim, form = self.sim, self.plan['forms'][fid]
        for t in form['terms']:
            r = self.w.spec['red'][t['red']]
            sim.reach('form', r['fam'], r.get('restr') or r.get('shape') or r.get('method') or '', t['k'],
                      (form.get('trial') or form.get('test') or [0, ''])[1], t.get('elm', t.get('q', '')),
                      (t.get('w') or ['-'])[0], 'tags' if t.get('tags') else '', 'deg%s' % self.w.spec['dim'])
        test, trial = form.get('test'), form.get('trial')
        if test is None:
            val, scale = self.reference(form)
            if isinstance(A, (df.cpp.la.GenericVector, df.cpp.la.GenericMatrix)):
                raise Violation('bad-type', 'functional %s is %s' % (what, type(A)))
            sim.close(float(A), val, scale, 'value', '%s functional' % what)
            self.seen[fid] = np.array([float(A)])
            sim.event('value', fid, sim.num(float(A)))
            return
        if trial is None:
            arr = to_array(A, what)
            self.seen[fid] = arr.copy()
            n = self.w.space(*test).dim()
            sim.check(arr.shape == (n, ), 'shape', '%s %s is not (%d,)' % (what, arr.shape, n))
            for i in range(2):
                y = self.w.probe(*test, i)
                val, scale = self.reference(form, y)
                sim.close(arr @ y, val, scale, 'value', '%s vector of %s' % (what, self.describe(form)))
            sim.event('vec', fid, sim.num(arr))
            return
        arr = to_array(A, what)
        self.seen[fid] = arr.copy()
        shape = (self.w.space(*test).dim(), self.w.space(*trial).dim())
        sim.check(arr.shape == shape, 'shape', '%s %s is not %s' % (what, arr.shape, shape))
        for i in range(2):
            y, x = self.w.probe(*test, i, 'y'), self.w.probe(*trial, i, 'x')
            val, scale = self.reference(form, y, x)
            sim.close(y @ (arr @ x), val, scale, 'value', '%s matrix of %s' % (what, self.describe(form)))
        if lazy is not None:
            # Action of the not collapsed product
            x = self.w.probe(*trial, 3)
            fx = df.Function(self.w.space(*trial)).vector()
            fx.set_local(x)
            fx.apply('insert')
            got = to_array(lazy*fx, 'action').copy()
            sim.close(got, arr @ x, np.abs(arr) @ np.abs(x) @ np.ones(1) if False else np.max(np.abs(arr) @ np.abs(x)),
                      'action', '%s action of %s' % (what, self.describe(form)))
        sim.event('mat', fid, sim.num(arr))

    def describe(self, form):
        return '+'.join('%s[%s %s]' % (t['k'], self.w.spec['red'][t['red']]['fam'],
                                       (form.get('trial') or [0, t.get('elm', '')])[1]) for t in form['terms'])

    # --- what assembling must leave alone
    def snapshot(self):
        out = {}
        for k, m in self.w._mesh.items():
            out['coordinates %s' % k] = m.coordinates().copy()
            out['cells %s' % k] = m.cells().copy()
        for k, f in self.w._fun.items():
            out['coefficient %s' % (k, )] = f.vector().get_local()
        for k, f in self.w._mark.items():
            out['markers %s' % k] = f.array().copy()
        for name, r in self.reds.items():
            out.update(('%s of %s' % (k, name), v) for k, v in r.inputs().items())
        return out

    def unchanged(self, before, when):
        now = self.snapshot()
        for k, v in before.items():
            self.sim.check(k in now and v.shape == now[k].shape and np.array_equal(v, now[k]),
                           'input-changed', '%s changed by %s' % (k, when))

    # --- operations
    def op_asm(self, op):
        fid = op['form']
        self.build(fid)
        before = self.snapshot() if op.get('inputs') else None
        for fault in op.get('faults') or filter(None, [op.get('fault')]):
            self.sim.with_fault(lambda: self.assemble(fid), fault)
            if self.sim.survived:
                self.verify(fid, self.sim.survived[0])
            if before is not None:
                self.unchanged(before, 'an interrupted assembly')
        lazy = self.assemble(fid, convert=False)
        if op.get('cfault'):
            self.sim.with_fault(lambda: xii.ii_convert(lazy), op['cfault'])
            if self.sim.survived:
                self.verify(fid, self.sim.survived[0])
        A = xii.ii_convert(lazy)
        if before is not None:
            self.unchanged(before, 'assembly')
        if op.get('twice') and self.plan['forms'][fid].get('test') is not None:
            # Nothing happened in between: exactly the same result, in other storage
            B = xii.ii_convert(self.assemble(fid, convert=False))
            a, b = to_array(A).copy(), to_array(B)
            self.sim.check(np.array_equal(a, b), 'not-repeatable', 'assembling %s twice differs by %g' % (fid, np.max(np.abs(a-b))))
            wreck(B)
            self.sim.check(np.array_equal(to_array(A), a), 'aliased', 'two results of %s share storage' % fid)
        form = self.plan['forms'][fid]
        self.verify(fid, A, lazy=lazy if (form.get('trial') and op.get('lazy')) else None)
        if op.get('keep') and form.get('test') is not None:
            self.kept.append((fid, A, to_array(A).copy()))

    def op_upd(self, op):
        '''Change values of coefficient'''
        k = tuple(op['fun'])
        f = self.w.fun(*k)
        r = rng_of('upd', k, op['seed'])
        new = r.uniform(-1, 1, f.vector().size())
        how = op.get('how', 'set_local')
        if how == 'set_local':
            f.vector().set_local(new)
            f.vector().apply('insert')
        elif how == 'slice':
            f.vector()[:] = new
        elif how == 'axpy':
            other = f.vector().copy()
            other.set_local(new)
            other.apply('insert')
            f.vector().axpy(0.5, other)
        elif how == 'scale':
            f.vector()[:] *= 1.5 + new[0]
        elif how == 'zero':
            f.vector().zero()
        elif how == 'combine':
            other = df.Function(f.function_space())
            other.vector().set_local(new)
            other.vector().apply('insert')
            f.assign(0.5*f + 2*other)
        elif how == 'entry':
            f.vector()[int(op['seed'] % f.vector().size())] = new[0]
        # Other values which look the same to summary quantities (norms, sums, extrema)
        elif how == 'flip':
            f.vector().set_local(-f.vector().get_local())
            f.vector().apply('insert')
        elif how == 'rotate':
            f.vector().set_local(np.roll(f.vector().get_local(), 1 + op['seed'] % max(1, len(new) - 1)))
            f.vector().apply('insert')
        elif how == 'sum':
            x = f.vector().get_local()
            x += new - np.roll(new, 1)
            f.vector().set_local(x)
            f.vector().apply('insert')
        self.sim.event('update', k, how)

    def op_updc(self, op):
        '''Change a constant: in the form, weight of mean, tangent, parameter of expression'''
        keys = sorted(k for k in self.w._misc if k[0] in ('const', 'expr', 'meanw', 'tangent'))
        if not keys:
            return
        k = keys[op['i'] % len(keys)]
        c = self.w._misc[k]
        if k[0] == 'expr':
            c.t = op['v']
        elif k[0] == 'tangent':
            t = rng_of('tangent', op['i'], op['v']).uniform(-1, 1, len(c.values()))
            c.assign(df.Constant(tuple(t)))
        elif k[0] in ('const', 'meanw'):
            c.assign(op['v'])
        self.sim.event('updc', k, op['v'])

    def op_remark(self, op):
        '''Markers of cells of means, patches, dofs of patches are changed in place'''
        w = self.w
        meshes = w.spec['mesh'].values()
        inuse = {s.get('mark') for s in meshes}
        todo = set()
        for name, s in w.spec['red'].items():
            if s['fam'] == 'mean' and s.get('tags') is not None and s['cells'] in w._mark and s['cells'] not in inuse:
                todo.add(('cells', s['cells']))
            if s['fam'] == 'patch' and ('patch', name) in w._misc:
                todo.add(('dofs', name))
                if not s.get('dirac'):
                    todo.add(('patches', name))
            if s['fam'] == 'trace' and s['gamma'] in w._mesh and hasattr(w._mesh[s['gamma']], 'marking_function'):
                todo.add(('parts', s['gamma']))
        for k in w._misc:
            if k[0] == 'normal':
                todo.add(('normal', k[1:]))
        if not todo:
            return
        kind, name = sorted(todo, key=repr)[op['i'] % len(todo)]
        r = rng_of('remark', op['seed'])
        if kind == 'cells':
            a = w._mark[name].array()
            a[:] = r.permutation(a)
        elif kind == 'parts':
            a = w._mesh[name].marking_function.array()
            a[:] = r.permutation(a)
        elif kind == 'normal':          # Orientation of the facets inside is free
            n, cellwise = w._misc[('normal', ) + name]
            V, vals = n.function_space(), n.vector().get_local()
            gm, table = geo(w.mesh(name[0])), geo(w.mesh(name[1])).entities(geo(w.mesh(name[0])).tdim)
            for c, vs in enumerate(gm.cells):
                if len(table.get(Geo.key(gm.x[vs]), [])) == 2 and r.rand() < 0.5:
                    cellwise[c] *= -1
                    vals[[V.sub(i).dofmap().cell_dofs(c)[0] for i in range(gm.gdim)]] *= -1
            n.vector().set_local(vals)
            n.vector().apply('insert')
            for red in w.spec['red']:
                self.red(red).__dict__.pop('_pick', None)
        elif kind == 'dofs':
            vf, _, _, colors, _ = w._misc['patch', name]
            colors[:] = r.permutation(colors)
            vf.vector().set_local(colors)
            vf.vector().apply('insert')
        else:
            pf = w._misc['patch', name][1]
            users = [w._misc[k] for k in w._misc if k[0] == 'patch' and w._misc[k][1] is pf]
            if any(u[2] is not None for u in users):        # Colors of patches would not be right
                return
            a = pf.array()
            a[:] = r.permutation(a)
            for u in users:
                u[4][:] = a
        self.sim.event('remark', kind, name)

    def op_mesh(self, op):
        name = op['name']
        if name in self.w._mesh:
            return
        s = self.w.spec['mesh'][name]
        for k in ('mesh', 'mark'):        # What it is made from is there
            if k in s:
                self.w.mesh(s[k]) if k == 'mesh' else self.w.marking(s[k])
        before = self.snapshot() if self.w._mesh else {}
        self.sim.with_fault(lambda: self.w.derived(name, s), op['fault'])
        self.unchanged(before, 'interrupted construction of mesh')
        self.w.mesh(name)
        self.unchanged(before, 'construction of mesh')

    def op_embed(self, op):
        '''Facet mesh of one mesh is viewed as facet mesh of another'''
        sim, mesh, f = self.sim, self.w.mesh(op['name']), self.w.marking(op['mark'])
        pid = f.mesh().id()
        if pid in mesh.parent_entity_map:       # Found by an assembly
            return
        before = self.snapshot()
        for fault in op.get('faults') or ():
            if sim.with_fault(lambda: mesh.compute_embedding(f, list(op['tags'])), fault):
                self.unchanged(before, 'an interrupted embedding')
            elif pid in mesh.parent_entity_map:     # The fault was swallowed
                break
        if pid not in mesh.parent_entity_map:
            mesh.compute_embedding(f, list(op['tags']))
        emap = mesh.parent_entity_map[pid][f.dim()]
        sim.check(sorted(emap) == list(range(mesh.num_cells())), 'embedding', 'cells without facets: %d of %d' % (len(emap), mesh.num_cells()))
        e2v = f.mesh().topology()(f.dim(), 0)
        for c, vs in enumerate(mesh.cells()):
            e = int(emap[c])
            got, want = f.mesh().coordinates()[e2v(e)], mesh.coordinates()[vs]
            sim.check(f.array()[e] in op['tags'], 'embedding', 'facet is not marked')
            sim.close(sorted(map(tuple, np.round(got, 9))), sorted(map(tuple, np.round(want, 9))), 1, 'embedding', 'vertices of facet')
        self.unchanged(before, 'embedding')

    def op_interp(self, op):
        '''Matrix that takes functions to their interpolants on the same mesh'''
        from xii.assembler.interpolation_matrix import interpolation_mat
        sim, (mesh, kv, kq) = self.sim, op['spaces']
        V, Q = self.w.space(mesh, kv), self.w.space(mesh, kq)
        before = self.snapshot()
        act = lambda: interpolation_mat(V, Q)
        if op.get('fault'):
            sim.with_fault(act, op['fault'])
        A = df.PETScMatrix(act())
        for i in range(2):
            f = df.Function(V)
            f.vector().set_local(self.w.probe(mesh, kv, 'interp', i))
            want = df.interpolate(f, Q).vector().get_local()
            sim.check((A.size(0), A.size(1)) == (Q.dim(), V.dim()), 'interpolation', 'size of matrix')
            sim.close((A*f.vector()).get_local(), want, np.abs(want).max() + 1, 'interpolation', 'from %s to %s' % (kv, kq))
        self.unchanged(before, 'interpolation')

    def op_measure(self, op):
        '''Measure of the shapes around the points of the line'''
        from xii.assembler.average_matrix import MeasureFunction
        from reds import shape_points
        sim, red = self.sim, self.red(op['red'])
        f = self.w.fun(red.bulk, op['key'])
        if f.ufl_shape and not f.function_space().num_sub_spaces():
            return              # Has no scalar components
        before = self.snapshot()
        act = lambda: MeasureFunction(red.mark(f))
        if op.get('fault'):
            sim.with_fault(act, op['fault'])
        m = act()
        sim.check(m.function_space().mesh().id() == red.mesh.id() and m.ufl_shape == (), 'measure', 'scalar function on the line')
        V = m.function_space()
        X, got = V.tabulate_dof_coordinates(), to_array(m.vector())
        mesh = red.mesh
        want = np.full(V.dim(), np.nan)
        for c in range(mesh.num_cells()):
            a, b = mesh.coordinates()[mesh.cells()[c]]
            for d in V.dofmap().cell_dofs(c):
                want[d] = sum(shape_points(red.s, X[d], a - b)[1])
        sim.close(got, want, np.abs(want).max(), 'measure', 'measure of %s' % red.s['shape'])
        self.unchanged(before, 'measure')

    def op_rule(self, op):
        '''Quadrature of the disk is exact for polynomials of the degree asked for'''
        from reds import rotation, radius_at, disk_moment
        sim, shape = self.sim, self.red(op['red']).the_shape()
        spec = self.red(op['red']).s
        rng = random.Random(op['poly'])
        x0, n = np.array(op['x0']), np.array(op['n'])
        act = lambda: shape.quadrature(x0, n)
        if op.get('fault'):
            sim.with_fault(act, op['fault'])
        q = act()
        R, (t, s) = radius_at(spec, x0), rotation(n)[:, :2].T
        d = np.array(q.points) - x0
        sim.close(d @ n, np.zeros(len(d)), R, 'rule', 'plane of the disk')
        deg = min(spec['deg'], 19)
        for _ in range(4):
            a = rng.randint(0, deg)
            b = rng.randint(0, deg - a)
            got = np.sum(np.array(q.weights)*(d @ t/R)**a*(d @ s/R)**b)/R**2
            # The rules of degree 17, 19 are tabulated to about 1e-6
            sim.close(got, disk_moment(a, b), 1, 'rule', 'moment %r of disk' % ((a, b), ), tol=5e-6 if deg > 15 else 1e-11)

    def op_gc(self, op):
        gc.collect()

    def op_scribble(self, op):
        '''Overwrite an earlier result; nobody else may notice'''
        if not self.kept:
            return
        fid, A, _ = self.kept.pop(op['i'] % len(self.kept))
        wreck(A)

    def op_rebuild(self, op):
        '''Forget form objects: they are made anew from the same pieces'''
        self.built.pop(op['form'], None)

    def op_drop(self, op):
        '''Forget a function space: same space is created anew'''
        keys = sorted(k for k in self.w._space)
        if keys:
            self.w._space.pop(keys[op['i'] % len(keys)])

    def check_kept(self, when):
        # Earlier results are nobody's buffers
        for fid, A, copy in self.kept:
            self.sim.check(np.array_equal(to_array(A), copy), 'aliased', 'earlier result of %s changed by %s' % (fid, when))


class Run:
    '''Operations over several worlds in one process'''
    forms = Forms

    def __init__(self, plan, sim):
        self.plan, self.sim, self.worlds = plan, sim, {}

    def world(self, i):
        if i not in self.worlds:
            self.worlds[i] = self.forms(self.plan, self.sim, self.plan['worlds'][i])
        return self.worlds[i]

    def op(self, op):
        if op['op'] == 'forget':
            # Meshes, spaces... of the world go away, they might come back later
            self.worlds.pop(op['world'], None)
            gc.collect()
            return
        if op['op'] in ('par', 'nested'):
            return getattr(self, 'op_' + op['op'])(op)
        getattr(self.world(op['world']), 'op_' + op['op'])(op)

    # --- several callers
    def op_par(self, op):
        '''Callers assemble at the same time, the simulator interleaves them'''
        sim = self.sim
        jobs = []
        if op.get('cold'):
            # Nothing about their meshes is remembered
            for i in set(j['world'] for j in op['jobs']):
                self.worlds.pop(i, None)
            gc.collect()
        for j in op['jobs']:
            w = self.world(j['world'])
            w.build(j['form'])              # All that the form is made from is there...
            w.built.pop(j['form'])          # ...but the form is new

            def job(w=w, fid=j['form']):
                return w.assemble(fid)
            fault = None
            if j.get('fault'):
                n = sim.crossings_of(lambda: job())
                fault = {'kind': j['fault']['kind'], 'k': 1 + int(j['fault']['at']*n)}
                w.built.pop(j['form'], None)
                sim.count('faults.offered')
            jobs.append((job, fault))
        inter = Interleave(jobs, op['seed'], op['p'])
        for j, (_, fault), (status, A) in zip(op['jobs'], jobs, inter.run()):
            w = self.world(j['world'])
            if status == 'raised':
                if fault is None:
                    raise A
                sim.count('faults.' + fault['kind'])
                # The caller tries again
                w.built.pop(j['form'], None)
                A = w.assemble(j['form'])
            w.verify(j['form'], A, 'interleaved')
        sim.count('p.switches', inter.switches)
        sim.count('p.interleavings')
        sim.event('interleaved', inter.switches, inter.crossings, hash(tuple(inter.trace)))
        sim.reach('interleaving', sim.num([x for t in inter.trace for x in t] or [0]))

    def op_nested(self, op):
        '''The shape of averaging is user's code which assembles something else'''
        w = self.world(op['world'])
        for r in set(t['red'] for t in self.plan['forms'][op['form']]['terms']):
            red = w.red(r)
            if getattr(red, 'the_shape', None) is None or not red.s.get('var'):
                return
        calls = [0]
        if op.get('cold') and op['inner'][0] != op['world']:
            self.worlds.pop(op['inner'][0], None)
        inner = self.world(op['inner'][0])
        inner.build(op['inner'][1])

        def callback():
            calls[0] += 1
            if calls[0] == op['at']:
                A = inner.assemble(op['inner'][1])
                inner.verify(op['inner'][1], A, 'nested')
                self.sim.count('p.nested')
        from reds import make_shape
        for r in set(t['red'] for t in self.plan['forms'][op['form']]['terms']):
            red = w.red(r)
            red._shape = make_shape(red.s, callback)
        w.built.pop(op['form'], None)
        A = w.assemble(op['form'])
        w.verify(op['form'], A, 'with callbacks')
        for r in set(t['red'] for t in self.plan['forms'][op['form']]['terms']):
            del w.red(r)._shape
        w.built.pop(op['form'], None)

    def run(self):
        for i, op in enumerate(self.plan['ops']):
            self.sim.step = i
            self.sim.count('ops')
            self.sim.count('op.' + op['op'])
            self.op(op)
            for w in self.worlds.values():
                w.check_kept(op['op'])
