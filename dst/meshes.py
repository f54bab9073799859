'''
Histories over a store of meshes and mesh functions. The model knows entities
by the coordinates of their vertices, and so it does not depend on how meshes
are numbered.
'''
import numpy as np
import dolfin as df
import networkx as nx
from itertools import combinations
from alg import *
from sim import SeededSet
from world import make_mesh
from refmodel import Geo

TAGS = [0, 1, 2, 3, 5, 8]
key_of = Geo.key


def renumber(mesh, seed):
    '''Same mesh, other numbers of vertices and cells'''
    g = rnd('renumber', seed)
    x, cells = mesh.coordinates(), mesh.cells()
    pv, pc = g.permutation(len(x)), g.permutation(len(cells))
    new = np.empty(len(x), dtype=int)
    new[pv] = np.arange(len(x))         # old -> new
    return build(x[pv], new[cells[pc]], mesh.topology().dim())


def build(x, cells, tdim):
    x = np.asarray(x)
    mesh, ed = df.Mesh(), df.MeshEditor()
    ed.open(mesh, {1: 'interval', 2: 'triangle', 3: 'tetrahedron'}[tdim], tdim, x.shape[1])
    ed.init_vertices(len(x))
    ed.init_cells(len(cells))
    for i, p in enumerate(x):
        ed.add_vertex(i, p)
    for i, c in enumerate(cells):
        ed.add_cell(i, np.array(c, dtype='uintp'))
    ed.close()
    mesh.order()
    return mesh


_KEYS = {}


def entkeys(mesh, d):
    '''Keys of d-entities by their number'''
    at = (mesh.id(), d)
    if at not in _KEYS:
        x = mesh.coordinates()
        if d == 0:
            out = [key_of([p]) for p in x]
        elif d == mesh.topology().dim():
            out = [key_of(x[c]) for c in mesh.cells()]
        else:
            mesh.init(d, 0)
            e2v = mesh.topology()(d, 0)
            out = [key_of(x[e2v(e)]) for e in range(mesh.num_entities(d))]
        _KEYS[at] = out
    return _KEYS[at]


class T:
    '''Mesh in the store'''
    def __init__(self, mesh, **kw):
        self.mesh = mesh
        self.tdim, self.gdim = mesh.topology().dim(), mesh.geometry().dim()
        self.tags = None        # cell key -> tag
        self.maps = {}          # id of other -> {dim: numbers that are mapped}
        self.parents = []
        self.sub = False
        self.partial = set()
        self.__dict__.update(kw)

    def keys(self, d=None):
        return entkeys(self.mesh, self.tdim if d is None else d)


class F:
    '''Mesh function in the store'''
    def __init__(self, f, on):
        self.f, self.on, self.dim = f, on, f.dim()

    def vals(self):
        return dict(zip(self.on.keys(self.dim), map(int, self.f.array())))


class Meshes(Alg):
    def __init__(self, plan, sim):
        Alg.__init__(self, plan, sim)
        self.T, self.F = [], []
        self.busy = None
        for s in plan['meshes']:
            if 'twin' in s:
                m = renumber(self.T[s['twin']].mesh, s['perm'])
            elif s['m'] == 'lines':
                m = network(s)[0]
            else:
                m = make_mesh(s)
                if s.get('acute'):      # Equilateral triangles
                    x = m.coordinates()*[s['n'], s['k']]
                    x[:, 0] += x[:, 1]*(0.5 if s['diag'] == 'left' else -0.5)
                    x[:, 1] *= np.sqrt(3)/2
                    m.coordinates()[:] = x
            m.init()
            t = T(m, root=self.T[s['twin']].root if 'twin' in s else len(self.T))
            self.T.append(t)

    # --- what is compared
    def name(self, id_):
        for i, t in enumerate(self.T):
            if t.mesh.id() == id_:
                return i
        return -1

    def canon(self, mesh):
        f = getattr(mesh, 'marking_function', None)
        tags = [0]*mesh.num_cells() if f is None else list(map(int, f.array()))
        rows = sorted(sum(k, ()) + (t, ) for k, t in zip(entkeys(mesh, mesh.topology().dim()), tags))
        pts = sorted(map(tuple, np.round(mesh.coordinates(), 9)))
        maps = sorted(map(self.name, getattr(mesh, 'parent_entity_map', {})))
        return [np.array(rows), np.array(pts), np.array(maps, dtype=float)]

    def value(self, out):
        if isinstance(out, df.Mesh):
            _KEYS.pop((out.id(), out.topology().dim()), None)      # Maybe it was moved
            return self.canon(out)
        if isinstance(out, df.cpp.mesh.MeshFunctionSizet):
            rows = sorted(sum(k, ()) + (v, ) for k, v in zip(entkeys(out.mesh(), out.dim()), map(int, out.array())))
            return np.array(rows)
        if isinstance(out, df.Function):
            return out.vector().get_local()
        if isinstance(out, (tuple, list, np.ndarray)) and not (isinstance(out, np.ndarray) and out.dtype != object):
            return [self.value(o) for o in out]
        if isinstance(out, dict):
            return [self.value([k, out[k]]) for k in sorted(out)]
        return np.atleast_1d(np.asarray(out, dtype=float))

    def wreck(self, out):
        if isinstance(out, df.Mesh):
            out.coordinates()[:] = 1e30
            if hasattr(out, 'marking_function'):
                out.marking_function.set_all(77)
            for m in getattr(out, 'parent_entity_map', {}).values():
                for d in m.values():
                    d.clear()
                m.clear()
            getattr(out, 'parent_entity_map', {}).clear()
            getattr(out, 'tagged_cells', set()).clear()
            if hasattr(out, 'parent_meshes'):
                del out.parent_meshes[:]
            if hasattr(out, 'leafs'):
                for _, m in out.leafs:
                    np.asarray(m)[:] = 0
                del out.leafs[:]
        elif isinstance(out, df.cpp.mesh.MeshFunctionSizet):
            out.set_all(77)
        elif isinstance(out, df.Function):
            out.vector()[:] = 1e30
        elif isinstance(out, dict):
            for v in out.values():
                self.wreck(v)
            out.clear()
        elif isinstance(out, (tuple, list, np.ndarray)) and not (isinstance(out, np.ndarray) and out.dtype != object):
            for o in out:
                self.wreck(o)
            if isinstance(out, list):
                del out[:]
        elif isinstance(out, np.ndarray) and out.flags.writeable:
            out[:] = 0

    def snapshot(self):
        out = {}
        for i, t in enumerate(self.T):
            m = t.mesh
            out['mesh %d' % i, 'x'] = m.coordinates().copy()
            out['mesh %d' % i, 'cells'] = np.array(m.cells(), dtype=float)
            if hasattr(m, 'marking_function'):
                out['mesh %d' % i, 'tags'] = np.array(m.marking_function.array(), dtype=float)
                out['mesh %d' % i, 'tagged'] = np.array(sorted(m.tagged_cells), dtype=float)
            for j, other in enumerate(self.T):
                for d, mp in getattr(m, 'parent_entity_map', {}).get(other.mesh.id(), {}).items():
                    if other.mesh.id() in t.maps:   # Known
                        out['mesh %d' % i, 'map', j, d] = np.array(sorted((int(k), int(v)) for k, v in mp.items()), dtype=float)
            if hasattr(m, 'leafs'):
                out['mesh %d' % i, 'leafs'] = np.concatenate([np.r_[id_, np.asarray(l, dtype=float)] for id_, l in m.leafs])
        for i, f in enumerate(self.F):
            out['f %d' % i, ] = np.array(f.f.array(), dtype=float)
        return out

    def unchanged(self, before, when):
        now = self.snapshot()
        for k, v in before.items():
            self.sim.check(k in now and same(now[k], v), 'input-changed', '%s changed by %s' % (k, when))
        for i, t in enumerate(self.T):
            known = set(t.maps) | (self.busy or set())
            got = set(getattr(t.mesh, 'parent_entity_map', {}))
            self.sim.check(got <= known, 'input-changed', 'mesh %d has a map that nobody asked for after %s' % (i, when))

    def op_call(self, op):
        self.pending = None
        out = Alg.op_call(self, op)
        if out is not None and self.pending and not op.get('keep'):
            self.pending(out)

    # --- checks
    def check_map(self, what, mesh, mp, other, dim, cells=None):
        '''Map from (cells of) mesh to entities of the other'''
        c = self.sim.check
        num = mesh.num_cells()
        cells = set(range(num)) if cells is None else set(cells)
        mcells = mesh.cells()
        vertices = set(int(v) for i in cells for v in mcells[i])
        for d, need in ((0, vertices), (dim, cells)):
            c(d in mp, 'map', '%s: no map for dimension %d' % (what, d))
            m = mp[d]
            c(hasattr(m, 'keys') and hasattr(m, 'items'), 'map', '%s: map for dimension %d is %s' % (what, d, type(m)))
            c(set(map(int, m.keys())) == need, 'map', lambda: '%s: map for dimension %d has %d of %d' % (what, d, len(m), len(need)))
            mine, theirs = entkeys(mesh, d), entkeys(other, d)
            for k, v in m.items():
                c(0 <= int(v) < len(theirs), 'map', '%s: %s is not an entity of dimension %d' % (what, v, d))
                c(mine[int(k)] == theirs[int(v)], 'map', lambda: '%s: %s mapped to %s' % (what, mine[int(k)], theirs[int(v)]))

    def check_mesh(self, what, mesh, tdim, gdim, cells):
        '''mesh has exactly the cells {key: tag}'''
        c = self.sim.check
        c(isinstance(mesh, df.Mesh), 'bad-type', '%s is %s' % (what, type(mesh)))
        c((mesh.topology().dim(), mesh.geometry().dim()) == (tdim, gdim), 'mesh', '%s: dimensions' % what)
        got = entkeys(mesh, tdim)
        c(len(got) == len(set(got)), 'mesh', '%s: a cell is twice in the mesh' % what)
        c(set(got) == set(cells), 'mesh', lambda: '%s: %d cells, expected %d; missing %s, extra %s' % (
            what, len(got), len(cells), sorted(set(cells)-set(got))[:1], sorted(set(got)-set(cells))[:1]))
        pts = entkeys(mesh, 0)
        c(sorted(pts) == sorted({(p, ) for k in cells for p in k}), 'mesh', '%s: vertices' % what)
        for t in (mesh.cells(), ):
            c(len(t) == len(got), 'mesh', what)

    def check_tags(self, what, mesh, cells):
        f = mesh.marking_function
        self.sim.check(f.mesh().id() == mesh.id() and f.dim() == mesh.topology().dim(), 'tags', '%s: marking function' % what)
        for k, v in zip(entkeys(mesh, f.dim()), f.array()):
            self.sim.check(int(v) == cells[k], 'tags', lambda: '%s: cell %s has tag %d, expected %d' % (what, k, v, cells[k]))

    def check_embedded(self, what, mesh, on, cells):
        dim = len(next(iter(cells))) - 1
        self.check_mesh(what, mesh, dim, on.gdim, cells)
        self.check_tags(what, mesh, cells)
        self.sim.check(set(mesh.parent_entity_map) == {on.mesh.id()}, 'map', '%s: knows other meshes than its parent' % what)
        self.check_map(what, mesh, mesh.parent_entity_map[on.mesh.id()], on.mesh, dim)
        self.sim.check([m.id() for m in mesh.parent_meshes] == [on.mesh.id()], 'map', '%s: parent meshes' % what)

    def add_mesh(self, mesh, on=None, **kw):
        t = T(mesh, root=on.root if on else len(self.T), **kw)
        if on is not None:
            t.maps[on.mesh.id()] = True
            t.parents.append(on)
        self.T.append(t)
        return t

    def pick(self, things, i):
        return things[i % len(things)] if things else None

    # --- what users do
    def op_mark(self, op):
        '''Tags on entities'''
        t = self.pick(self.T, op['on'])
        dim = op['dim'] % (t.tdim + 1)
        if op.get('codim') is not None:
            dim = max(t.tdim - op['codim'], 0)
        f = df.MeshFunction('size_t', t.mesh, dim, 0)
        keys = t.keys(dim)
        g = rnd('mark', op['seed'])
        # Entities are drawn through their geometry, not their number
        order = sorted(range(len(keys)), key=lambda e: keys[e])
        tags = [TAGS[i] for i in g.permutation(len(TAGS))[:op['ntags']]]
        if op['how'] == 'strips':
            d = g.uniform(-1, 1, t.gdim)
            s = np.array([np.mean(np.array(keys[e]), axis=0) @ d for e in order])
            cuts = np.quantile(s, np.linspace(0, 1, len(tags)+1)[1:-1]) if len(tags) > 1 else []
            vals = [tags[int(np.searchsorted(cuts, v))] for v in s]
        elif op['how'] == 'bdry' and dim == t.tdim-1:
            n = {}
            for c in t.keys():
                for sub in combinations(c, t.tdim):
                    at = tuple(sorted(sub))
                    n[at] = n.get(at, 0) + 1
            tags = [i or 7 for i in tags]
            vals = [tags[g.randint(len(tags))] if n[keys[e]] == 1 else 0 for e in order]
        elif op['how'] == 'unique':
            vals = [int(v) for v in g.permutation(len(keys)) + 1]
        else:
            p = g.dirichlet(np.ones(len(tags)))
            vals = [tags[i] for i in g.choice(len(tags), size=len(keys), p=p)]
        a = f.array()
        for e, v in zip(order, vals):
            a[e] = v
        self.F.append(F(f, t))
        self.sim.event('mark', dim, len(set(vals)))

    def op_remark(self, op):
        '''Tags change: what was made by the old ones does not'''
        f = self.pick(self.F, op['f'])
        if f is not None:
            before = self.snapshot()
            i = self.F.index(f)
            a = f.f.array()
            g = rnd('remark', op['seed'])
            for e in g.permutation(len(a))[:1 + len(a)//4]:
                a[e] = TAGS[g.randint(len(TAGS))]
            before.pop(('f %d' % i, ))
            self.unchanged(before, 'change of the markers')

    def tags_of(self, f, op, lo=1):
        present = sorted(set(map(int, f.f.array())))
        if op.get('nonzero') and len(present) > 1:
            present = [i for i in present if i]
        g = rnd('tags', op['seed'])
        n = min(len(present), max(lo, op.get('ntags', 1)))
        return [present[i] for i in g.permutation(len(present))[:n]]

    def as_arg(self, tags, how):
        if how == 'int' and len(tags) == 1:
            return tags[0]
        return {'list': list, 'tuple': tuple, 'set': SeededSet, 'int': list}[how](tags)

    def do_embed(self, op):
        from xii import EmbeddedMesh, SubDomainMesh
        fs = [f for f in self.F if f.dim > 0 and (not op.get('cells') or f.dim == f.on.tdim)]
        f = self.pick(fs, op['f'])
        if f is None:
            return None
        tags = self.tags_of(f, op)
        make = SubDomainMesh if op.get('cells') else EmbeddedMesh
        cells = {k: v for k, v in f.vals().items() if v in tags}
        if len(cells) > 300:
            return None
        self.sim.reach('embed', make.__name__, f.dim, f.on.tdim, f.on.gdim, len(tags), op['as'], bool(f.on.parents))
        what = '%s of %s' % (make.__name__, tags)

        def verify(mesh):
            self.check_embedded(what, mesh, f.on, cells)
            self.sim.check(set(mesh.tagged_cells) == set(tags), 'tags', '%s: tagged cells are %s' % (what, mesh.tagged_cells))
        self.pending = lambda m: self.add_mesh(m, f.on, tags=dict(cells), sub=bool(op.get('cells')))
        return (lambda: make(f.f, self.as_arg(tags, op['as']))), verify, True

    def do_skeleton(self, op):
        from xii import Skeleton
        t = self.pick([t for t in self.T if t.tdim > 1], op['on'])
        if t is None:
            return None
        table = {}
        for c in t.keys():
            for s in combinations(c, t.tdim):
                table.setdefault(tuple(sorted(s)), []).append(c)
        cells = {k: 1 for k, cs in table.items() if op['bdry'] or len(cs) > 1}
        if not cells:
            return None
        self.sim.reach('skeleton', t.tdim, t.gdim, op['bdry'], bool(t.parents))
        verify = lambda mesh: self.check_embedded('skeleton', mesh, t, cells)
        self.pending = lambda m: self.add_mesh(m, t, tags=dict(cells))
        f = (lambda: Skeleton(t.mesh, True)) if op['bdry'] else (lambda: Skeleton(t.mesh))
        return f, verify, True

    def pairs(self, ok):
        out = []
        for e in self.T:
            if not e.parents:
                continue
            mine = set(e.keys())
            for t in self.T:
                if t is not e and t.gdim == e.gdim and t.root == e.root and t.tdim >= e.tdim and ok(e, t):
                    if mine <= set(t.keys(e.tdim)):
                        out.append((e, t))
        return out

    def do_embedding(self, op):
        '''View of the mesh from another parent'''
        todo = self.pairs(lambda e, t: t.mesh.id() not in e.maps and (self.busy is None or t.mesh.id() not in self.busy))
        p = self.pick(todo, op['i'])
        if p is None:
            return None
        e, t = p
        if self.busy is not None:
            self.busy.add(t.mesh.id())
        g = rnd('embedding', op['seed'])
        mine = sorted(e.keys())
        part = mine if not op.get('part') else [k for k in mine if g.uniform() < 0.6] or mine[:1]
        tags = [TAGS[1:][i] for i in g.permutation(len(TAGS)-1)[:op['ntags']]]
        look = {k: tags[g.randint(len(tags))] for k in part}
        used = sorted(set(look.values()))
        f = df.MeshFunction('size_t', t.mesh, e.tdim, 0)
        for i, k in enumerate(t.keys(e.tdim)):
            f.array()[i] = look.get(k, 100 if op.get('noise') and g.uniform() < 0.3 else 0)
        arg = used[0] if len(used) == 1 and op['as'] == 'int' else self.as_arg(used, op['as'])
        cells = [i for i, k in enumerate(e.keys()) if k in look]
        what = 'embedding of %d cells by %s' % (len(cells), used)
        self.sim.reach('embedding', e.tdim, t.tdim, t.gdim, len(used), len(cells) == len(mine), len(e.maps))

        def call():
            # After an interrupted call the map is there and complete, or the call can be repeated
            if t.mesh.id() in e.mesh.parent_entity_map:
                return e.mesh.parent_entity_map[t.mesh.id()]
            return e.mesh.compute_embedding(f, arg)

        def verify(out):
            self.check_map(what, e.mesh, e.mesh.parent_entity_map[t.mesh.id()], t.mesh, e.tdim, cells)
            self.check_map(what, e.mesh, out, t.mesh, e.tdim, cells)
            e.maps[t.mesh.id()] = True
            if len(cells) != len(mine):
                e.partial.add(t.mesh.id())
        return call, verify, False

    def op_embedding(self, op):
        sim = self.sim
        self.busy = set()
        r = self.do_embedding(op)
        if r is None:
            self.busy = None
            return
        call, verify, _ = r
        before = self.snapshot()
        for fault in op.get('faults') or ():
            sim.with_fault(call, fault)
            self.unchanged(before, 'an interrupted embedding')
        out = call()
        verify(out)
        self.unchanged(before, 'embedding')
        self.busy = None
        sim.event('embedding', len(out))

    def op_again(self, op):
        '''The map is already known: refused, nothing changes'''
        done = [(e, t) for e in self.T for t in self.T if t.mesh.id() in e.maps and e.tdim <= t.tdim and e.parents]
        p = self.pick(done, op['i'])
        if p is None:
            return
        e, t = p
        before = self.snapshot()
        f = df.MeshFunction('size_t', t.mesh, e.tdim, 1)
        try:
            e.mesh.compute_embedding(f, 1)
            self.sim.check(False, 'not-refused', 'another map to the same mesh')
        except ValueError:
            pass
        self.unchanged(before, 'a refused embedding')

    def do_buildmap(self, op):
        from xii.meshing.embedded_mesh import build_embedding_map
        p = self.pick(self.pairs(lambda e, t: e.tdim < t.tdim), op['i'])
        if p is None:
            return None
        e, t = p
        sub, cells, tags = None, None, None
        if op['sub'] and e.tags:
            sub = e.mesh.marking_function
            present = sorted(set(e.tags.values()))
            g = rnd('buildmap', op['seed'])
            tags = [present[i] for i in g.permutation(len(present))[:1 + g.randint(len(present))]]
            cells = [i for i, k in enumerate(e.keys()) if e.tags[k] in tags]
        self.sim.reach('buildmap', e.tdim, t.tdim, t.gdim, tags and len(tags), min(e.mesh.num_cells(), 3))

        def f():
            if sub is None:
                return build_embedding_map(e.mesh, t.mesh)
            return build_embedding_map(e.mesh, t.mesh, sub, self.as_arg(tags, op['as'] if op['as'] != 'int' else 'list'))
        return f, (lambda mp: self.check_map('map built for %s' % tags, e.mesh, mp, t.mesh, e.tdim, cells)), True

    def do_overlap(self, op):
        from xii import OverlapMesh
        subs = [t for t in self.T if t.sub and t.tags]
        todo = [(a, b) for a in subs for b in subs if a is not b and a.root == b.root and a.tdim == b.tdim and
                a.gdim == b.gdim and len(set(a.tags.values()) & set(b.tags.values())) == 1]

        def fits(a, b):
            tag, = set(a.tags.values()) & set(b.tags.values())
            return {k for k, v in a.tags.items() if v == tag} <= set(b.tags)
        p = self.pick([p for p in todo if fits(*p)], op['i'])
        if p is None:
            return None
        a, b = p
        tag, = set(a.tags.values()) & set(b.tags.values())
        cells = {k: v for k, v in a.tags.items() if v == tag}
        self.sim.reach('overlap', a.tdim, a.gdim, len(a.maps), len(b.maps))

        def verify(mesh):
            self.check_mesh('overlap', mesh, a.tdim, a.gdim, cells)
            self.check_tags('overlap', mesh, cells)
            for o in (a, b):
                self.sim.check(o.mesh.id() in mesh.parent_entity_map, 'map', 'overlap has no map')
                self.check_map('overlap', mesh, mesh.parent_entity_map[o.mesh.id()], o.mesh, a.tdim)
            self.sim.check(set(mesh.parent_entity_map) == {a.mesh.id(), b.mesh.id()}, 'map', 'overlap knows other meshes')

        def commit(m):
            t = self.add_mesh(m, a, tags=dict(cells), sub=True)
            t.maps[b.mesh.id()] = True
        self.pending = commit
        return (lambda: OverlapMesh(a.mesh, b.mesh)), verify, True

    def do_mortar(self, op):
        from xii import mortar_meshes
        f = self.pick([f for f in self.F if f.dim == f.on.tdim and f.on.tdim > 1 and f.on.tdim == f.on.gdim], op['f'])
        if f is None:
            return None
        tags = self.tags_of(f, op, lo=2)
        if len(tags) < 2:
            return None
        t, vals = f.on, f.vals()
        facets = {}
        for c in t.keys():
            for s in combinations(c, t.tdim):
                facets.setdefault(tuple(sorted(s)), []).append(c)
        only = None
        if op.get('some'):
            g = rnd('some', op['seed'])
            p = g.uniform(0.05, 0.95)
            only = {k for k in sorted(facets) if g.uniform() < p}
        iface = {k: cs for k, cs in facets.items() if len(cs) == 2 and vals[cs[0]] != vals[cs[1]] and
                 vals[cs[0]] in tags and vals[cs[1]] in tags and (only is None or k in only)}
        if not iface:
            return None
        # Is the interface in one piece?
        G = nx.Graph()
        for k in iface:
            nx.add_path(G, [('cell', k)] + [('v', p) for p in k])
        whole = nx.number_connected_components(G) == 1
        strict = op['strict']
        self.sim.reach('mortar', t.tdim, len(tags), whole, strict, op['as'], only is not None, bool(t.parents))
        subcells = {tag: {k: tag for k, v in vals.items() if v == tag} for tag in tags}

        def call():
            facet_iter = None
            if only is not None:
                facet_iter = [df.Facet(t.mesh, i) for i, k in enumerate(t.keys(t.tdim-1)) if k in only]
            arg = self.as_arg(tags, 'tuple' if op['as'] == 'set' else op['as'])
            if strict and not whole:
                try:
                    mortar_meshes(f.f, arg, facet_iter)
                except AssertionError:
                    return 0
                self.sim.check(False, 'not-refused', 'interface which is not continuous')
            return mortar_meshes(f.f, arg, facet_iter, strict=strict)

        def verify(out):
            if isinstance(out, int):
                return
            meshes, mesh, colors = out
            c = self.sim.check
            c(len(meshes) == len(tags), 'mesh', 'mortar: number of meshes')
            for tag, m in zip(tags, meshes):
                self.check_embedded('mortar: mesh of %d' % tag, m, t, subcells[tag])
            c(len({tuple(sorted(p)) for p in colors}) == len(colors), 'tags', 'mortar: colors %s' % colors)
            pair = {k: tuple(sorted(tags.index(vals[x]) for x in cs)) for k, cs in iface.items()}
            c({tuple(sorted(p)) for p in colors} == set(pair.values()), 'tags', lambda: 'mortar: colors %s, interfaces %s' % (
                colors, set(pair.values())))
            color = {tuple(sorted(p)): i for i, p in enumerate(colors)}
            cells = {k: color[p] for k, p in pair.items()}
            self.check_mesh('mortar: interface', mesh, t.tdim-1, t.gdim, cells)
            self.check_tags('mortar: interface', mesh, cells)
            c(set(mesh.parent_entity_map) == {t.mesh.id()} | {m.id() for m in meshes}, 'map', 'mortar: maps')
            self.check_map('mortar', mesh, mesh.parent_entity_map[t.mesh.id()], t.mesh, t.tdim-1)
            for i, m in enumerate(meshes):
                mp = mesh.parent_entity_map[m.id()][t.tdim-1]
                need = {j for j, k in enumerate(entkeys(mesh, t.tdim-1)) if i in pair[k]}
                c(set(map(int, mp.keys())) == need, 'map', lambda: 'mortar: map to mesh %d has %d of %d' % (i, len(mp), len(need)))
                mine, theirs = entkeys(mesh, t.tdim-1), entkeys(m, t.tdim-1)
                for k, v in mp.items():
                    c(mine[int(k)] == theirs[int(v)], 'map', lambda: 'mortar: %s mapped to %s' % (mine[int(k)], theirs[int(v)]))

        def commit(out):
            if not isinstance(out, int) and op.get('take'):
                for tag, m in zip(tags, out[0]):
                    self.add_mesh(m, t, tags=dict(subcells[tag]))
        self.pending = commit
        return call, verify, True

    def op_par(self, op):
        self.busy = set()
        try:
            Alg.op_par(self, op)
        finally:
            self.busy = None


def network(s):
    '''-> mesh of lines in plane/space, branches as arrays of points'''
    g = rnd('network', s['seed'])
    gdim, nodes = s['gdim'], s['nodes']
    pts = g.uniform(-1, 1, (nodes, gdim))
    # A tree on the nodes, more edges and loops if asked for
    edges = [(g.randint(i), i) for i in range(1, nodes)]
    for _ in range(s.get('extra', 0)):
        a, b = g.randint(nodes), g.randint(nodes)
        edges.append((a, b))        # Another connection, or a loop from the node to itself
    branches = []
    for a, b in edges:
        n = 1 + g.randint(4)
        seen = [e for e in branches if {e[0], e[1]} == {a, b}]
        if a == b or seen:
            n = max(n, 3)
        A, B = pts[a], pts[b]
        if a == b:
            mid = [A + 0.3*g.uniform(-1, 1, gdim) for _ in range(n-1)]
        else:
            bend = 0.2*g.uniform(-1, 1, gdim)
            mid = [A + (B-A)*k/n + bend*np.sin(np.pi*k/n) + (0 if not seen else 0.01*g.uniform(-1, 1, gdim)) for k in range(1, n)]
        X = np.array([A] + mid + [B])
        if g.uniform() < 0.5:
            X = X[::-1].copy()
        branches.append((a, b, X))
    order = g.permutation(len(branches))
    branches = [branches[i] for i in order]
    # Vertices by their position
    index, x, cells = {}, [], []

    def at(p):
        k = key_of([p])
        if k not in index:
            index[k] = len(x)
            x.append(p)
        return index[k]
    for _, _, X in branches:
        v = [at(p) for p in X]
        cells.extend(zip(v[:-1], v[1:]))
    p = g.permutation(len(x))
    q = g.permutation(len(cells))
    inv = np.empty(len(x), dtype=int)
    inv[p] = np.arange(len(x))
    mesh = build(np.array(x)[p], [inv[list(cells[i])] for i in q], 1)
    return mesh, branches


# ------------------------------------------------------------------ generation
def gen_meshes(rng, bases=('sq', 'sq', 'cube', 'int'), n=None):
    out = []
    for _ in range(n or rng.choice([1, 1, 2])):
        m = rng.choice(bases)
        if m == 'sq':
            s = {'m': 'sq', 'n': rng.randint(1, 4), 'k': rng.randint(1, 3), 'diag': rng.choice(['right', 'left', 'crossed', 'left/right'])}
        elif m == 'cube':
            s = {'m': 'cube', 'n': rng.randint(1, 2), 'k': rng.randint(1, 2), 'l': rng.randint(1, 2)}
        elif m == 'lines':
            s = {'m': 'lines', 'gdim': rng.choice([2, 3]), 'nodes': rng.randint(2, 6), 'extra': rng.choice([0, 0, 1, 2]),
                 'seed': rng.randrange(10**6)}
        else:
            s = {'m': 'int', 'n': rng.randint(2, 6)}
        if rng.random() < 0.5:
            s.update(pert=rng.randrange(1, 10**6), amount=0.15)
        out.append(s)
        if rng.random() < 0.6:
            out.append({'twin': len(out)-1, 'perm': rng.randrange(10**6)})
    return out


def gen_mark(rng, **kw):
    return dict({'op': 'mark', 'on': rng.randrange(100), 'dim': rng.randrange(4), 'codim': rng.choice([None, 0, 0, 1, 1, 1, 2]),
                 'ntags': rng.randint(1, 4), 'how': rng.choice(['random', 'random', 'strips']), 'seed': rng.randrange(10**6)}, **kw)


def gen_embed(rng):
    return {'do': 'embed', 'f': rng.randrange(100), 'cells': rng.random() < 0.35, 'ntags': rng.randint(1, 3),
            'as': rng.choice(['int', 'list', 'tuple', 'set']), 'seed': rng.randrange(10**6)}


def gen_embedding(rng):
    return {'do': 'embedding', 'i': rng.randrange(100), 'ntags': rng.randint(1, 2), 'part': rng.random() < 0.2,
            'noise': rng.random() < 0.4, 'as': rng.choice(['int', 'list', 'tuple', 'set']), 'seed': rng.randrange(10**6)}
