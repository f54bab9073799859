'''Markers and maps between related meshes'''
from meshes import *


def plan(rng, tier):
    ops = [gen_mark(rng, codim=rng.choice([0, 1])), gen_mark(rng, codim=1), gen_mark(rng, codim=0),
           dict(gen_embed(rng), op='call')]

    def call():
        k = rng.random()
        if k < 0.14:
            return gen_embed(rng)
        if k < 0.34:
            return {'do': 'translate', 'i': rng.randrange(1000), 'ntags': rng.randint(1, 3), 'all': rng.random() < 0.4,
                    'as': rng.choice(['int', 'list', 'tuple', 'set']), 'into': rng.random() < 0.3, 'seed': rng.randrange(10**6)}
        if k < 0.54:
            return {'do': 'transfer', 'i': rng.randrange(1000), 'ntags': rng.randint(1, 3), 'all': rng.random() < 0.5,
                    'as': rng.choice(['list', 'tuple', 'set']), 'seed': rng.randrange(10**6)}
        if k < 0.66:
            return {'do': 'refine', 'on': rng.randrange(100), 'nrefs': rng.choice([1, 1, 2, 3]), 'pts': rng.choice(['centroid', 'random', 'circum']),
                    'seed': rng.randrange(10**6)}
        if k < 0.74:
            return {'do': 'dual', 'on': rng.randrange(100), 'nrefs': rng.choice([1, 1, 2])}
        if k < 0.86:
            return {'do': 'union', 'gdim': rng.choice([1, 2, 2, 3]), 'cut': rng.randint(1, 5), 'join': rng.random() < 0.3, 'noise': rng.choice([0, 0, 1e-7, 1e-5]),
                    'seed': rng.randrange(10**6), 'again': rng.random() < 0.3}
        if k < 0.93:
            return {'do': 'lines', 'straight': rng.random() < 0.25, 'gdim': rng.choice([2, 3]), 'nodes': rng.randint(2, 6),
                    'extra': rng.choice([0, 0, 1, 2]), 'noise': rng.choice([0, 0, 1e-7, 1e-5]), 'seed': rng.randrange(10**6), 'n': rng.randint(1, 5)}
        if k < 0.95:
            return {'do': 'contour', 'n': rng.randint(3, 8), 'wind': rng.choice([1, -1, 2]), 'nrefs': rng.randint(0, 3), 'npts': rng.randint(1, 4),
                    'seed': rng.randrange(10**6)}
        return {'do': 'branches', 'i': rng.randrange(100)}

    meshes = gen_meshes(rng, ('sq', 'sq', 'cube', 'int', 'lines'))
    for s in meshes:
        if s.get('m') == 'lines' and rng.random() < 0.5:        # With loops
            s.update(nodes=rng.choice([1, 1, 2, 3]), extra=rng.choice([1, 1, 2]))
        if s.get('m') == 'sq' and rng.random() < 0.25:
            s.pop('pert', None)
            s.pop('amount', None)
            s.update(acute=True, diag=rng.choice(['left', 'right']))
    nets = [s for s in meshes if s.get('m') == 'lines']
    if nets:
        ops.extend(decorate(rng, {'do': 'branches', 'i': rng.randrange(100)}) for _ in range(3))
    for _ in range(rng.randint(14, 24)):
        k = rng.random()
        if k < 0.3:
            ops.append(gen_mark(rng, how=rng.choice(['random', 'strips', 'unique'])))
        elif k < 0.72:
            ops.append(decorate(rng, call(), p_keep=0.15))
        elif k < 0.8:
            ops.append(dict(gen_embedding(rng), op='embedding'))
        elif k < 0.84:
            ops.append({'op': 'remark', 'f': rng.randrange(100), 'seed': rng.randrange(10**6)})
        elif k < 0.93:
            ops.append(gen_par(rng, call))
        elif k < 0.97:
            ops.append({'op': 'scribble', 'i': rng.randrange(100)})
        else:
            ops.append({'op': 'gc'})
    return {'meshes': meshes, 'ops': ops}


class Coloring(tuple):
    '''Which color is used for what is up to the package'''


def snapped(mesh, exact, noise):
    '''Mesh with vertices at the nearest of exact points'''
    if not noise or not isinstance(mesh, df.Mesh):
        return mesh
    x = [exact[np.argmin(np.linalg.norm(exact - p, axis=1))] if p.size == exact.shape[1] else p for p in mesh.coordinates()]
    return build(np.array(x), mesh.cells(), mesh.topology().dim())


class Related(Meshes):
    def __init__(self, plan, sim):
        Meshes.__init__(self, plan, sim)
        spec = lambda s: spec(plan['meshes'][s['twin']]) if 'twin' in s else s
        self.nets = [t for t, s in zip(self.T, plan['meshes']) if spec(s).get('m') == 'lines']

    def value(self, out):
        if isinstance(out, Coloring):
            groups = {}
            for k, v in zip(entkeys(out[0].mesh(), 1), out[0].array()):
                groups.setdefault(int(v), []).append(k)
            return [np.array(g) for g in sorted(map(sorted, groups.values()))]
        return Meshes.value(self, out)

    def children(self, ok=lambda e, t: True):
        '''Mesh with complete map to the other'''
        return [(e, t) for e in self.T for t in self.T if t.mesh.id() in e.maps and t.mesh.id() not in e.partial and ok(e, t)]

    def marked(self, op):
        todo = [(e, t, f) for e, t in self.children() for f in self.F if f.on is t and f.dim < e.tdim]
        p = self.pick(todo, op['i'])
        if p is None:
            return None
        e, t, f = p
        tags = self.tags_of(f, op)
        vals = f.vals()
        return e, t, f, tags, vals

    def check_function(self, what, out, mesh, dim, want):
        self.sim.check(isinstance(out, df.cpp.mesh.MeshFunctionSizet), 'bad-type', '%s: %s' % (what, type(out)))
        self.sim.check(out.mesh().id() == mesh.id() and out.dim() == dim, 'bad-type', '%s: mesh or dimension' % what)
        for k, v in zip(entkeys(mesh, dim), out.array()):
            self.sim.check(int(v) == want[k], 'value', lambda: '%s: %s has %d, expected %d' % (what, k, v, want[k]))

    def do_translate(self, op):
        p = self.marked(op)
        if p is None:
            return None
        e, t, f, tags, vals = p
        arg = None if op['all'] else self.as_arg(tags, op['as'])
        if op['all']:
            tags = set(vals.values())
        old = {k: 0 for k in e.keys(f.dim)}
        if op['into']:
            g = rnd('into', op['seed'])
            old = {k: 20 + g.randint(3) for k in e.keys(f.dim)}
        want = {k: vals[k] if vals[k] in tags else v for k, v in old.items()}
        self.sim.reach('translate', e.tdim, t.tdim, f.dim, op['as'], op['into'], len(e.maps), e.parents[0] is t)

        def call():
            into = None
            if op['into']:
                into = df.MeshFunction('size_t', e.mesh, f.dim, 0)
                for i, k in enumerate(e.keys(f.dim)):
                    into.array()[i] = old[k]
            return e.mesh.translate_markers(f.f, arg, into)
        return call, (lambda out: self.check_function('translated markers %s' % (arg, ), out, e.mesh, f.dim, want)), True

    def do_transfer(self, op):
        from xii import transfer_markers
        p = self.marked(op)
        if p is None:
            return None
        e, t, f, tags, vals = p
        arg = None if op['all'] else self.as_arg(tags, op['as'])
        want = {k: vals[k] if (op['all'] or vals[k] in tags) else 0 for k in e.keys(f.dim)}
        self.sim.reach('transfer', e.tdim, t.tdim, f.dim, op['as'], op['all'], len(e.maps), e.parents[0] is t)
        call = lambda: transfer_markers(e.mesh, f.f) if arg is None else transfer_markers(e.mesh, f.f, arg)
        return call, (lambda out: self.check_function('transferred markers %s' % (arg, ), out, e.mesh, f.dim, want)), True

    # --- refinements
    def check_fine(self, what, mesh, t, nrefs, split):
        '''split(vertices of the cell) -> lists of vertices of smaller ones'''
        c = self.sim.check
        c((mesh.topology().dim(), mesh.geometry().dim()) == (t.tdim, t.gdim), 'mesh', '%s: dimensions' % what)
        c(set(mesh.parent_entity_map) == {t.mesh.id()}, 'map', '%s: parent' % what)
        mp = mesh.parent_entity_map[t.mesh.id()]
        x, X = mesh.coordinates(), t.mesh.coordinates()
        # Old vertices are there
        c(sorted(map(int, mp[0].values())) == list(range(len(X))), 'map', '%s: vertices' % what)
        for k, v in mp[0].items():
            c(np.array_equal(x[int(k)], X[int(v)]), 'map', '%s: vertex %s is not %s' % (what, k, v))
        c(set(map(int, mp[t.tdim].keys())) == set(range(mesh.num_cells())), 'map', '%s: cells' % what)
        cells = {}
        for k, v in mp[t.tdim].items():
            cells.setdefault(int(v), []).append(int(k))
        c(set(cells) == set(range(t.mesh.num_cells())), 'map', '%s: every cell is refined' % what)
        fine, tol = mesh.cells(), 1e-9
        used = set()
        for pc, C in enumerate(t.mesh.cells()):
            want = [X[C]]
            for _ in range(nrefs):
                want = [s for w in want for s in split(w)]
            mine = [fine[i] for i in cells[pc]]
            c(len(mine) == len(want), 'mesh', lambda: '%s: cell split into %d, expected %d' % (what, len(mine), len(want)))
            left = [np.array(sorted(map(tuple, np.round(w, 7)))) for w in want]
            for m in mine:
                used.update(map(int, m))
                y = x[m]
                hit = [i for i, w in enumerate(left) if abs(w.mean(axis=0) - y.mean(axis=0)).max() < 1e-6 and
                       all(np.abs(w - p).max(axis=1).min() < 1e-6 for p in y)]
                c(hit, 'mesh', lambda: '%s: %s is not a part of the cell' % (what, y.tolist()))
                left.pop(hit[0])
        c(used == set(range(len(x))), 'mesh', '%s: vertices without cell' % what)
        pts = {tuple(np.round(p, 7)) for p in x}
        c(len(pts) == len(x), 'mesh', '%s: a vertex is twice in the mesh' % what)

    def small(self, t, nrefs, n):
        return t.mesh.num_cells()*n**nrefs < 500

    def acute(self, t):
        '''Circumcenters are well inside of cells'''
        if t.tdim == 1:
            return t.gdim > 1
        if t.tdim != 2:
            return False
        for c in t.mesh.cells():
            x = t.mesh.coordinates()[c]
            for i in range(3):
                a, b = x[(i+1) % 3] - x[i], x[(i+2) % 3] - x[i]
                if a @ b < 0.05*np.linalg.norm(a)*np.linalg.norm(b):
                    return False
        return True

    def do_refine(self, op):
        from xii.meshing.refinement import centroid_refine, circumcenter_refine, inner_point_refine
        if op['pts'] == 'circum':
            op = dict(op, nrefs=1)
        t = self.pick([t for t in self.T if self.small(t, op['nrefs'], t.tdim+1) and (op['pts'] != 'circum' or self.acute(t))], op['on'])
        if t is None:
            return None
        w = np.ones(t.tdim+1)/(t.tdim+1)
        if op['pts'] == 'random':
            w = rnd('weights', op['seed']).dirichlet(4*np.ones(t.tdim+1))
            w = 0.1 + w
            w = w/w.sum()

        def point(v):
            if op['pts'] == 'circum':
                v = np.array(v)
                E = v[1:] - v[0]
                return v[0] + np.linalg.solve(E @ E.T, 0.5*np.sum(E**2, axis=1)) @ E
            # By geometry: does not depend on numbering of vertices
            return w @ np.array(sorted(map(tuple, v)))

        def split(v):
            p = point(v)
            return [np.vstack([np.delete(v, i, axis=0), p]) for i in range(len(v))]
        self.sim.reach('refine', t.tdim, t.gdim, op['nrefs'], op['pts'], bool(t.parents))
        if op['pts'] == 'centroid':
            f = lambda: centroid_refine(t.mesh, nrefs=op['nrefs'])
        elif op['pts'] == 'circum':
            f = lambda: circumcenter_refine(t.mesh)
        else:
            def new(mesh):
                x = mesh.coordinates()
                return np.array([point(x[c]) for c in mesh.cells()])
            f = lambda: inner_point_refine(t.mesh, new, 1e-10, nrefs=op['nrefs'])
        what = 'refined %d times' % op['nrefs']
        return f, (lambda m: self.check_fine(what, m, t, op['nrefs'], split)), True

    def do_dual(self, op):
        from xii.meshing.dual_mesh import dual_mesh
        t = self.pick([t for t in self.T if t.tdim == 2 and self.small(t, op['nrefs'], 6)], op['on'])
        if t is None:
            return None

        def split(v):
            c, out = v.mean(axis=0), []
            for i, j in combinations(range(3), 2):
                mid = (v[i] + v[j])/2
                out += [np.array([c, mid, v[i]]), np.array([c, mid, v[j]])]
            return out
        self.sim.reach('dual', t.gdim, op['nrefs'], bool(t.parents))
        f = lambda: dual_mesh(t.mesh, nrefs=op['nrefs'])
        return f, (lambda m: self.check_fine('dual mesh', m, t, op['nrefs'], split)), True

    # --- unions
    def apart(self, parts, gdim):
        '''All vertices that parts share need to be on their boundary, and no part inside of other'''
        for a, b in combinations(parts, 2):
            for m, o in ((a, b), (b, a)):
                f = df.MeshFunction('size_t', m, gdim-1, 0)
                df.DomainBoundary().mark(f, 1)
                m.init(gdim-1, 0)
                e2v = m.topology()(gdim-1, 0) if gdim > 1 else None
                bd = {entkeys(m, 0)[v] for e in np.where(f.array() == 1)[0] for v in (e2v(e) if e2v else [e])}
                if not set(entkeys(m, 0)) & set(entkeys(o, 0)) <= bd:
                    return False
        return True

    def do_union(self, op):
        from xii.meshing.union_mesh import union_mesh
        # Coordinates of what is shared are same up to the tolerance
        noise = op.get('noise', 0)
        key = ('parts', op['gdim'], op['cut'], op['seed'], op['join'], noise)
        kw = {'tol': 10*noise} if noise else {}
        if key not in self.memo:
            # Cells of a mesh are dealt to the parts, so the parts match on the boundary
            g = rnd(*key)
            whole = make_mesh({1: {'m': 'int', 'n': 7, 'pert': 1 + op['seed']}, 2: {'m': 'sq', 'n': 4, 'k': 3, 'pert': 1 + op['seed'], 'amount': 0.1},
                               3: {'m': 'cube', 'n': 2, 'k': 2, 'l': 2}}[op['gdim']])
            keys = entkeys(whole, op['gdim'])
            order = sorted(range(len(keys)), key=lambda i: keys[i])
            d = g.uniform(-1, 1, op['gdim'])
            s = np.array([np.mean(np.array(keys[i]), axis=0) @ d for i in order])
            cuts = np.sort(g.uniform(s.min(), s.max(), op['cut']-1))
            where = np.searchsorted(cuts, s)
            parts = []
            for p in sorted(set(where)):
                cells = whole.cells()[[i for i, w in zip(order, where) if w == p]]
                vs = sorted(set(cells.ravel()))
                new = {v: i for i, v in enumerate(vs)}
                m = build(whole.coordinates()[vs], [[new[v] for v in c] for c in cells], op['gdim'])
                parts.append(renumber(m, op['seed'] + int(p)))
            self.memo[key] = (parts, keys, self.apart(parts, op['gdim']), whole.coordinates().copy())
            for i, m in enumerate(parts):
                m.coordinates()[:] += noise*rnd(*key, i).uniform(-1, 1, m.coordinates().shape)
        parts, keys, fine, exact = self.memo[key]
        if not fine:
            return None
        first, before = None, None
        if op['join'] and len(parts) > 2:       # Union made by parts
            if key + ('first', ) not in self.memo:
                self.memo[key + ('first', )] = union_mesh(parts[:2], **kw)
            first = self.memo[key + ('first', )]
            before = [(i, np.array(m)) for i, m in first.leafs]
        arg = ([first] + parts[2:]) if first is not None else list(parts)
        self.sim.reach('union', op['gdim'], len(parts), first is not None)

        def verify(m):
            c = self.sim.check
            if len(arg) == 1:
                return c(m is arg[0], 'mesh', 'union of one mesh')
            self.check_mesh('union', snapped(m, exact, noise), op['gdim'], op['gdim'], {k: 1 for k in keys})
            leafs = list(m.leafs)
            c([i for i, _ in leafs] == [p.id() for p in parts], 'map', 'union: leafs')
            for (_, mp), p in zip(leafs, parts):
                c(len(mp) == p.num_vertices(), 'map', 'union: size of the map')
                x, y = m.coordinates(), p.coordinates()
                c(all(np.abs(x[int(mp[i])] - y[i]).max() < 1e-12 + 4*noise for i in range(len(y))), 'map', 'union: map of a part')
            if first is not None:
                c(len(first.leafs) == len(before) and all(i == j and np.array_equal(a, b) for (i, a), (j, b) in zip(first.leafs, before)),
                  'input-changed', 'union: leafs of a part')
            for p in parts:
                c(not hasattr(p, 'leafs'), 'input-changed', 'part of the union got leafs')
        return (lambda: union_mesh(arg, **kw)), verify, len(arg) > 1

    # --- lines
    def do_lines(self, op):
        from xii.meshing.line_mesh import line_mesh, StraightLineMesh
        g = rnd('lines', op['seed'])
        if op['straight']:
            A, B = g.uniform(-1, 1, op['gdim']), g.uniform(-1, 1, op['gdim'])
            n = op['n']
            x = [A + (B-A)*i/n for i in range(n+1)]
            branches = None
            f = lambda: StraightLineMesh(A, B, n)
            segs = list(zip(x[:-1], x[1:]))
        else:
            branches = [b for _, _, b in network(op)[1]]
            segs = [s for b in branches for s in zip(b[:-1], b[1:])]
            noise = op.get('noise', 0)
            exact = np.vstack(branches)
            moved = [b + noise*rnd('moved', op['seed'], i).uniform(-1, 1, b.shape) for i, b in enumerate(branches)]
            f = lambda: line_mesh([b.copy() for b in moved], **({'tol': 10*noise} if noise else {}))
        self.sim.reach('lines', op['gdim'], branches and len(branches), branches and min(map(len, branches)), op['straight'])
        r = lambda p: tuple(np.round(p, 9) + 0.)
        want = {tuple(sorted((r(a), r(b)))): 1 for a, b in segs}

        def verify(m):
            if op['straight']:      # Rounding
                c = self.sim.check
                c(m.num_cells() == op['n'] and m.num_vertices() == op['n']+1, 'mesh', 'straight line: size')
                X = m.coordinates()
                for cell in m.cells():
                    c(any(max(np.abs(X[cell[i]]-a).max(), np.abs(X[cell[1-i]]-b).max()) < 1e-10 for a, b in segs for i in (0, 1)),
                      'mesh', 'straight line: cell')
                return
            self.check_mesh('mesh of lines', snapped(m, exact, noise), 1, op['gdim'], want)
        return f, verify, True

    def do_branches(self, op):
        from xii.meshing.branching import color_branches, walk_vertices
        t = self.pick(self.nets, op['i'])
        if t is None:
            return None
        G = nx.MultiGraph()
        for i, (a, b) in enumerate(t.mesh.cells()):
            G.add_edge(int(a), int(b), key=i)
        ends = {v for v in G if G.degree(v) != 2}
        # Cells meet in a branch if they share a vertex which is not an end
        H = nx.Graph()
        H.add_nodes_from(range(t.mesh.num_cells()))
        for v in G:
            if v not in ends:
                H.add_edge(*[k for _, _, k in G.edges(v, keys=True)])
        groups = {frozenset(c) for c in nx.connected_components(H)}
        self.sim.reach('branches', t.gdim, len(groups), len(ends))

        def bounds(group):
            v = [int(v) for i in group for v in t.mesh.cells()[i]]
            return {i for i in v if v.count(i) == 1}

        def f():
            cell_f, branches, loops = color_branches(t.mesh)
            walks = {}
            if len(branches) + len(loops) == 1 and t.mesh.num_cells() > 1:
                # The mesh is the branch
                walks[1] = [int(v) for v in walk_vertices(t.mesh, is_loop=bool(loops))]
                return Coloring((cell_f, list(branches), list(loops), walks))
            for tag in list(branches) + list(loops):
                if t.mesh.num_cells() > 1:
                    walks[tag] = [int(v) for v in walk_vertices(cell_f, tag=tag, is_loop=tag in loops)]
            return Coloring((cell_f, list(branches), list(loops), walks))

        def verify(out):
            cell_f, branches, loops, walks = out
            c = self.sim.check
            colors = {}
            for i, v in enumerate(cell_f.array()):
                colors.setdefault(int(v), set()).add(i)
            c({frozenset(s) for s in colors.values()} == groups, 'value', 'branches have other cells')
            c(sorted(list(branches) + list(loops)) == sorted(colors), 'value', 'colors %s %s, used are %s' % (branches, loops, sorted(colors)))
            for tag in colors:
                # A loop is a branch that ends where it began
                closed = not bounds(colors[tag])
                c((tag in loops) == closed, 'value', 'loops')
            for tag, walk in walks.items():
                steps = [frozenset(map(int, t.mesh.cells()[i])) for i in colors[tag]]
                got = [frozenset(p) for p in zip(walk[:-1], walk[1:])]
                c(sorted(map(sorted, got)) == sorted(map(sorted, steps)), 'value', lambda: 'walk %s along %s' % (walk, steps))
                if tag in loops:
                    c(walk[0] == walk[-1], 'value', 'walk along a loop')
        return f, verify, True


    # --- closed contours in the plane
    def do_contour(self, op):
        from xii.meshing.branching import refine_contour, wind_number, is_inside_contour
        g = rnd('contour', op['seed'])
        n = op['n']*abs(op['wind'])
        th = 2*np.pi*np.arange(n)/op['n']*np.sign(op['wind'])
        r = g.uniform(0.8, 1.2, op['n'])[np.arange(n) % op['n']]
        x = np.c_[r*np.cos(th), r*np.sin(th)]
        x = np.vstack([x, x[:1]])
        # Well inside, well outside
        pts = np.array([g.uniform(-0.15, 0.15, 2) if g.uniform() < 0.5 else g.uniform(2, 3)*np.array([np.cos(a), np.sin(a)])
                        for a in g.uniform(0, 2*np.pi, op['npts'])])
        fine = x
        for _ in range(op['nrefs']):
            fine = np.vstack([p for a, b in zip(fine[:-1], fine[1:]) for p in (a, 0.5*(a + b))] + [fine[-1]])
        want = []
        for p in pts:
            mids = 0.5*(fine[1:] + fine[:-1]) - p
            d = np.diff(fine, axis=0)
            want.append(np.sum((mids[:, 0]*d[:, 1] - mids[:, 1]*d[:, 0])/np.sum(mids**2, axis=1))/2/np.pi)
        want = np.array(want)
        self.sim.reach('contour', op['n'], op['wind'], op['nrefs'])

        def f():
            return [np.array(a, dtype=float) for a in (refine_contour(x.copy(), op['nrefs']), wind_number(x.copy(), pts.copy(), op['nrefs']),
                             is_inside_contour(x.copy(), pts.copy(), tol=0.3, nrefs=op['nrefs']))]

        def verify(out):
            got, wind, inside = out
            self.sim.close(np.asarray(got), fine, 2, 'value', 'refined contour')
            self.sim.close(np.asarray(wind), want, 2, 'value', 'winding numbers')
            for v, w in zip(np.asarray(inside), want):
                self.sim.check(abs(abs(w) - 0.3) < 1e-6 or bool(v) == (abs(w) > 0.3), 'value', 'point is inside of the contour')
        return f, verify, True


def run(plan, sim):
    Related(plan, sim).run()
