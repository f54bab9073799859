'''Generators of worlds and forms shared by properties (pure python, seeded)'''
import copy

CONT = ['P1', 'P2', 'VP1', 'VP2', 'TP1', 'MIX']
SIDED = ['D0', 'D1', 'CR', 'RT1', 'N1', 'VD0', 'VD1', 'VCR', 'MX1', 'BD1']
GAMMA_Q = ['D0', 'D1', 'P1', 'P2']
GAMMA_QV = ['VP1', 'VD0', 'VD1']


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def mesh2d(rng, n=None):
    return {'m': 'sq', 'n': n or rng.randint(2, 4), 'k': n or rng.randint(2, 4),
            'diag': pick(rng, ['right', 'left', 'crossed']), 'amount': pick(rng, [0, 0.15]), 'pert': rng.randrange(1000)}


def mesh3d(rng):
    return {'m': 'cube', 'n': rng.randint(1, 2), 'k': rng.randint(1, 2), 'l': rng.randint(1, 2),
            'amount': pick(rng, [0, 0.1]), 'pert': rng.randrange(1000)}


def gamma_traces(rng, mesh, red, name, bulks, where, tags, conf, n):
    '''n traces from (some of) bulks to name; where: int/ext/any for each bulk'''
    for j in range(n):
        bulk = pick(rng, bulks)
        wh = where[bulk]
        s = {'fam': 'trace', 'bulk': bulk, 'gamma': name, 'conf': conf, 'where': wh}
        if conf and rng.random() < 0.5:
            s['restr'] = pick(rng, {'int': ['+', '-', '+', '-', 'avg', 'jump'], 'ext': ['+', '+', 'avg'], 'any': ['+', 'avg', 'jump']}[wh])
            s['normal'] = rng.randrange(2)
        if tags is not None and rng.random() < 0.4:
            k = rng.randint(1, len(tags))
            s['tag'] = sorted(rng.sample(tags, k))
            s['tagset'] = rng.random() < 0.3
        s['gtags'] = tags
        red['r%s%d' % (name[1:], j)] = s


def variant(rng, world):
    """
    Same structure, so that the same forms make sense, with other meshes, marked
    entities and parameters of operators. (Forms of variants are compiled once.)
    """
    world = copy.deepcopy(world)
    for m in world['mesh'].values():
        if 'amount' in m:
            m['amount'] = pick(rng, [0, 0.12])
            m['pert'] = rng.randrange(1000)
            if rng.random() < 0.5 and 'k' in m and 'embed' not in world:
                m['n'], m['k'] = m['k'], m['n']
        if m.get('m') == 'int':
            m['pert'] = rng.randrange(1, 1000)
        if m.get('diag'):
            m['diag'] = pick(rng, ['right', 'left'] if m['diag'] != 'crossed' else ['crossed', 'crossed', 'right'])
        if m.get('g') == 'line' and not any(s['fam'] == 'patch' for s in world['red'].values()):
            for i in range(len(m['a'])):
                same = m['a'][i] == m['b'][i]
                m['a'][i] = min(max(m['a'][i] + rng.uniform(-0.1, 0.1), 0.03), 0.97)
                m['b'][i] = m['a'][i] if same else min(max(m['b'][i] + rng.uniform(-0.1, 0.1), 0.03), 0.97)
        if m.get('g') == 'emb' and len(m['tags']) > 1:
            rng.shuffle(m['tags'])
        if m.get('g') == 'star':
            m['w'] = [round(rng.uniform(0.2, 1), 3) for _ in range(4)]
    for f in world['mark'].values():
        if 'seed' in f:
            f['seed'] = rng.randrange(10**6)
    for name, s in sorted(world['red'].items()):
        mutate_red(rng, world, s)
    return world


def mutate_red(rng, world, s):
    '''Other parameters of the operator (valid for the same elements)'''
    fam = s['fam']
    if fam == 'trace':
        if s.get('restr') in ('+', '-') and s['where'] == 'int':
            s['restr'] = pick(rng, ['+', '-'])
        if 'normal' in s:
            s['normal'] = rng.randrange(2)
        if s.get('tag') is not None:
            s['tag'] = sorted(rng.sample(s['gtags'], rng.randint(1, len(s['gtags']))))
    elif fam in ('average', 'flux') and s['shape'] is not None:
        s['R'] = round(rng.uniform(0.05, 0.3), 4)
        if 'var' in s:
            s['var'] = round(rng.uniform(0.05, 0.3), 3)
        if 'angle' in s:
            s['angle'] = round(rng.uniform(0, 6), 3)
    elif fam in ('point', 'gpoint'):
        s.update(cell=rng.randrange(5), local=rng.randrange(2))
        if fam == 'gpoint':
            s['tangent'] = rng.randrange(3)
    elif fam == 'mean':
        if 'tags' in s:
            s['tags'] = pick(rng, [[1], [2], [1, 2]])
        if 'c' in s:
            s['c'] = round(rng.uniform(0.5, 2), 3)
        if 'idx' in s:
            s['idx'] = rng.randrange(2)
    elif fam == 'patch':
        s['seed'] = rng.randrange(10**6)
    elif fam == 'transpose':
        n = world['mark'][s['facets']]['ntags']
        s['tags'] = sorted(rng.sample(range(1, n+1), rng.randint(1, n)))


def finish(rng, world, forms, nworlds, nops, p_forget=0.15, **kw):
    """Plan: histories over several worlds, interleaved"""
    worlds = [world] + [variant(rng, world) for _ in range(nworlds-1)]
    queues = []
    for i, w in enumerate(worlds):
        ops = history(rng, w, forms, rng.randint(*nops), **kw)
        for e in w.get('embed', ()):
            e = dict(e)
            if rng.random() < kw.get('p_fault', 0):
                e['faults'] = [{'kind': pick(rng, FAULTKINDS), 'at': rng.random()} for _ in range(rng.randint(1, 3))]
            ops.insert(0 if rng.random() < 0.8 else rng.randrange(len(ops)), e)
        if rng.random() < p_forget:
            ops.insert(rng.randrange(len(ops)), {'op': 'forget'})
        queues.append([dict(o, world=i) for o in ops])
    ops = []
    mixed = rng.random() < 0.6
    while any(queues):
        q = pick(rng, [q for q in queues if q]) if mixed else next(q for q in queues if q)
        ops.append(q.pop(0))
    return {'worlds': worlds, 'forms': forms, 'ops': ops, 'order': rng.randrange(10**6), 'marks': rng.random() < 0.5}


def split_world(rng):
    '''Two subdomain meshes meet at an interface made from the mesh of the whole'''
    mesh = {'m0': {'m': 'sq', 'n': 2, 'k': rng.randint(3, 5), 'diag': pick(rng, ['right', 'left'])},
            'm1': {'g': 'emb', 'mark': 'h', 'tags': [1]}, 'm2': {'g': 'emb', 'mark': 'h', 'tags': [2]}}
    ntags = rng.randint(1, 3)
    tags = list(range(1, ntags+1))
    rng.shuffle(tags)
    mark = {'h': {'mesh': 'm0', 'half': [0, 0.5]},
            'k0': {'mesh': 'm0', 'dim': 1, 'seed': rng.randrange(10**6), 'ntags': ntags, 'plane': [0, 0.5], 'density': 1.}}
    mesh['g0'] = {'g': 'emb', 'mark': 'k0', 'tags': tags}
    red = {}
    gamma_traces(rng, mesh, red, 'g0', ['m1', 'm1', 'm2', 'm0'], {'m1': 'ext', 'm2': 'ext', 'm0': 'int'}, tags, True, rng.randint(3, 5))
    return {'mesh': mesh, 'mark': mark, 'red': red, 'dim': 2}


def glued_world(rng):
    '''Two meshes that meet; facets of the one are later viewed as facets of the other'''
    k, diag = rng.randint(3, 5), pick(rng, ['right', 'left'])
    mesh = {'m1': {'m': 'rect', 'lo': [0, 0], 'hi': [1, 1], 'n': 2, 'k': k, 'diag': diag, 'amount': pick(rng, [0, 0.15]), 'pert': rng.randrange(1000)},
            'm2': {'m': 'rect', 'lo': [1, 0], 'hi': [2, 1], 'n': rng.randint(1, 3), 'k': k, 'diag': diag}}
    nt1, nt2 = rng.randint(1, 2), rng.randint(1, 3)
    mark = {'k1': {'mesh': 'm1', 'dim': 1, 'seed': rng.randrange(10**6), 'ntags': nt1, 'plane': [0, 1.], 'density': 1.},
            'k2': {'mesh': 'm2', 'dim': 1, 'seed': rng.randrange(10**6), 'ntags': nt2, 'plane': [0, 1.], 'density': 1.}}
    tags = list(range(1, nt1+1))
    mesh['g0'] = {'g': 'emb', 'mark': 'k1', 'tags': tags}
    red = {}
    gamma_traces(rng, mesh, red, 'g0', ['m1', 'm2', 'm2'], {'m1': 'ext', 'm2': 'ext'}, tags, True, rng.randint(3, 5))
    return {'mesh': mesh, 'mark': mark, 'red': red, 'dim': 2,
            'embed': [{'op': 'embed', 'name': 'g0', 'mark': 'k2', 'tags': list(range(1, nt2+1))}]}


def trace_world(rng, conf_only=False):
    '''A bulk mesh (or three) with a few reduced meshes of its facets and traces to them'''
    if rng.random() < 0.2:
        return split_world(rng) if rng.random() < 0.5 else glued_world(rng)
    dim = 3 if rng.random() < 0.25 else 2
    mesh = {'m0': mesh2d(rng) if dim == 2 else mesh3d(rng)}
    if rng.random() < 0.3:
        mesh['m0']['skew'] = pick(rng, [0.3, 0.7])
    elif dim == 2 and rng.random() < 0.25:
        mesh['m0']['squeeze'] = pick(rng, [0.02, 0.1])
    mark, red = {}, {}
    ngamma = rng.randint(1, 3)
    for g in range(ngamma):
        kind = pick(rng, ['emb', 'emb', 'emb', 'bdry', 'copy', 'noncon'])
        if kind == 'noncon' and conf_only:
            kind = 'emb'
        name = 'g%d' % g
        where, tags, conf = 'any', None, True
        if kind in ('emb', 'copy'):
            where = pick(rng, ['int', 'ext', 'any'])
            if dim == 3 and mesh['m0']['n']*mesh['m0']['k']*mesh['m0']['l'] == 1 and where == 'int':
                where = 'any'
            ntags = pick(rng, [1, 2, 3])
            mark['k%d' % g] = {'mesh': 'm0', 'dim': dim-1, 'seed': rng.randrange(10**6), 'ntags': ntags, 'where': where,
                               'density': rng.uniform(0.2, 0.7), 'max': 12 if dim == 2 else 8}
            tags = list(range(1, ntags+1))
            if ntags > 1 and rng.random() < 0.3:
                tags.remove(pick(rng, tags))
            rng.shuffle(tags)
            mesh[name] = {'g': kind, 'mark': 'k%d' % g, 'tags': tags, 'set': rng.random() < 0.3}
            if kind == 'copy':
                tags = None
        elif kind == 'bdry':
            where = 'ext'
            mesh[name] = {'g': 'bdry', 'mesh': 'm0'}
        else:
            conf, where = False, 'int'
            mesh[name] = loose(rng, dim, mesh['m0'].get('skew', 0), mesh['m0'].get('squeeze', 1))
        gamma_traces(rng, mesh, red, name, ['m0'], {'m0': where}, tags, conf, rng.randint(1, 3))
    return {'mesh': mesh, 'mark': mark, 'red': red, 'dim': dim}


def loose(rng, dim, skew, squeeze):
    '''Mesh of codimension 1 which does not follow the facets'''
    how = pick(rng, ['in', 'across', 'edge', 'out'])
    # Where the points are on the unit square/cube
    a = [rng.uniform(0.05, 0.4), rng.uniform(0.05, 0.95)]
    b = [rng.uniform(0.6, 0.95), rng.uniform(0.05, 0.95)]
    if how == 'across':
        a[0], b[0] = 0., 1.
    elif how == 'edge':
        a[1] = b[1] = pick(rng, [0., 1.])
    elif how == 'out':
        b[0] = rng.uniform(1.2, 1.6)
    a[1], b[1] = squeeze*a[1] + skew*a[0], squeeze*b[1] + skew*b[0]
    if dim == 2:
        return {'g': 'line', 'a': a, 'b': b, 'n': rng.randint(3, 6), 'how': how}
    z = pick(rng, [0., 0.13])
    return {'g': 'sheet', 'a': a + [z], 'b': [b[0]-a[0], b[1]-a[1], 0], 'c': [0, 0, pick(rng, [0.6, 1. - z])], 'n': rng.randint(1, 3), 'k': rng.randint(1, 2),
            'how': how}


def trace_elm(rng, world, r):
    s = world['red'][r]
    if s.get('restr') or s.get('where') == 'ext':
        pool = CONT + SIDED
        if s.get('restr') not in ('avg', 'jump'):
            pool = pool + ['DLT']
    else:
        pool = CONT
        if s.get('conf', True):
            pool = pool + ['DLT', 'VDLT']
    if world['dim'] == 3:
        pool = [e for e in pool if e not in ('MIX', 'VP2', 'TP1', 'VCR', 'BD1')]
    if not s.get('conf', True):
        pool = ['P1', 'P2', 'VP1']
    return pick(rng, pool)


VECTORS = ('VDLT', 'VP1', 'VP2', 'VD0', 'VD1', 'VCR', 'RT1', 'N1', 'BD1')


# Fewer different forms: less to compile, more to execute
LEAN = [False]


def partner(rng, key, vector_ok=True):
    if LEAN[0]:
        return 'VD0' if key in VECTORS and vector_ok and rng.random() < 0.3 else pick(rng, ['P1', 'D0'])
    if key in VECTORS and vector_ok and rng.random() < 0.6:
        return pick(rng, GAMMA_QV)
    return pick(rng, GAMMA_Q)


def random_form(rng, world, reds, elm_of, kinds, scalar_elm, partner=partner, maxterms=2, weights=True, tag_ok=True,
                usable=None):
    '''A form with 1-2 terms of the same arguments'''
    kind = pick(rng, kinds)
    r = pick(rng, reds)
    s = world['red'][r]
    e = elm_of(rng, world, r)
    q = partner(rng, e)
    form = {'terms': []}
    siblings = [x for x in reds if world['red'][x]['bulk'] == s['bulk'] and world['red'][x]['gamma'] == s['gamma']
                and (world['red'][x]['fam'] == s['fam'] or s['bulk'] == s['gamma'])]

    can = usable

    def usable(x, key):
        '''Can this element be used with reduction x'''
        t = world['red'][x]
        if can is not None:
            return can(world, x, key)
        if s['fam'] == 'trace':
            if key in ('DLT', 'VDLT'):
                return t.get('conf', True) and t.get('restr') not in ('avg', 'jump')
            return t.get('restr') or t.get('where') == 'ext' or key in CONT
        return True

    def term(k, r, **kw):
        t = dict(k=k, red=r, **kw)
        if rng.random() < 0.3:
            t['swap'] = True
        if weights and rng.random() < 0.4:
            t['w'] = pick(rng, [['c', round(rng.uniform(0.5, 2), 3)], ['g', 'P1', rng.randrange(2)]]) if LEAN[0] else pick(rng, [['c', round(rng.uniform(0.5, 2), 3)], ['e', round(rng.uniform(0.5, 2), 3)], ['g', pick(rng, ['P1', 'D0']), rng.randrange(2)],
                                ['r', scalar_elm(rng, world, r), rng.randrange(2)]])
        if rng.random() < 0.2:
            t['c'] = pick(rng, [2, -1.5])
        g = world['red'][r].get('gtags')
        if tag_ok and g and rng.random() < 0.3:
            t['tags'] = sorted(rng.sample(g, rng.randint(1, len(g))))
        return t

    def also_plain(form):
        '''Arguments of the same mesh can be in the same form also not reduced'''
        if s['bulk'] == s['gamma'] and rng.random() < 0.3:
            form['terms'].insert(rng.randrange(2), {'k': 'plain', 'red': r, 'c': pick(rng, [1, 1.5])})

    def second(k, t):
        '''Next term; it may be that only the operator is different'''
        x = pick(rng, [x for x in siblings if usable(x, e)])
        if rng.random() < 0.5:
            return term(k, x)
        others = [x for x in siblings if x != r and usable(x, e) and ((t.get('w') or '-')[0] != 'r' or usable(x, t['w'][1]))]
        return dict(t, red=pick(rng, others) if others else r)

    def over(t):
        '''What is reduced can be already reduced, by other operator; the last one counts'''
        if rng.random() < 0.2:
            t['over'] = pick(rng, [x for x in siblings if usable(x, e)])
        return t

    n = 2 if (maxterms > 1 and rng.random() < 0.35) else 1
    if kind == 'bil':
        form.update(test=[s['gamma'], q], trial=[s['bulk'], e])
        for i in range(n):
            form['terms'].append(term('bil', r) if i == 0 else second('bil', form['terms'][0]))
        also_plain(form)
    elif kind == 'bilT':
        form.update(trial=[s['gamma'], q], test=[s['bulk'], e])
        for i in range(n):
            form['terms'].append(term('bilT', r) if i == 0 else second('bilT', form['terms'][0]))
        also_plain(form)
    elif kind == 'TT':
        r2 = pick(rng, siblings)
        e2 = elm_of(rng, world, r2) if rng.random() < 0.5 else e
        if not usable(r2, e2):
            r2 = r
        form.update(trial=[s['bulk'], e], test=[s['bulk'], e2])
        form['terms'].append(term('TT', r, red2=r2))
        if n == 2 and not any(x in ('DLT', 'VDLT') for x in (e, e2)):
            form['terms'].append({'k': 'plain', 'red': r, 'c': 1.5})
    elif kind == 'lin':
        form.update(test=[s['bulk'], e])
        form['terms'].append(term('lin', r, q=q, qi=rng.randrange(2)))
        if n == 2 and rng.random() < 0.5:
            form['terms'].append(dict(second('lin', form['terms'][0]), q=q, qi=form['terms'][0]['qi']))
        elif n == 2 and e not in ('DLT', 'VDLT'):
            form['terms'].append({'k': 'plainlin', 'red': r, 'q': 'P1', 'qi': rng.randrange(2)})
    elif kind == 'linr':
        form.update(test=[s['bulk'], e])
        r2 = r
        form['terms'].append(over(term('linr', r, q=e, qi=rng.randrange(2))))
        if n == 2:
            form['terms'].append(dict(second('linr', form['terms'][0]), q=e, qi=form['terms'][0]['qi']))
    elif kind == 'linf':
        form.update(test=[s['gamma'], q])
        for i in range(n):
            if i == 0:
                form['terms'].append(over(term('linf', r, elm=e, qi=rng.randrange(2))))
            else:
                form['terms'].append(dict(second('linf', form['terms'][0]), elm=e, qi=form['terms'][0]['qi'] if rng.random() < 0.7 else rng.randrange(2)))
    elif kind == 'val':
        t = over(term('val', r, elm=e, q=q, qi=rng.randrange(2), qj=rng.randrange(2)))
        form['terms'].append(t)
        if n == 2:
            form['terms'].append(dict(second('val', t), elm=e, q=q, qi=t['qi'], qj=t['qj']))
    return form


def coefficients(world, forms):
    '''All coefficients the forms mention: [mesh, elm, idx]'''
    out = set()
    for f in forms.values():
        for t in f['terms']:
            s = world['red'][t['red']]
            if t['k'] == 'linf' or t['k'] == 'val':
                out.add((s['bulk'], t['elm'], t.get('qi', 0)))
            if t['k'] == 'val':
                out.add((s['gamma'], t['q'], t.get('qj', 0)))
            if t['k'] == 'lin':
                out.add((s['gamma'], t['q'], t.get('qi', 0)))
            if t['k'] == 'linr':
                out.add((s['bulk'], t['q'], t.get('qi', 0)))
            if t['k'] == 'plainlin':
                out.add((f['test'][0], t['q'], t.get('qi', 0)))
            w = t.get('w')
            if w and w[0] == 'g':
                out.add((s['gamma'], w[1], w[2]))
            if w and w[0] == 'r':
                out.add((s['bulk'], w[1], w[2]))
            if s['fam'] == 'mean' and s.get('weight') in ('P1', 'D0'):
                out.add((s['bulk'], s['weight'], s['idx']))
    return sorted(out)


FAULTKINDS = ['interrupt', 'memory', 'error', 'io']
UPDATES = ['set_local', 'slice', 'axpy', 'scale', 'zero', 'combine', 'entry', 'flip', 'rotate', 'sum']


def history(rng, world, forms, n, p_fault=0., p_upd=0.15, p_inputs=0.3, p_keep=0.3, p_gc=0.1, p_rebuild=0.1, p_scribble=0.05, p_remark=0.):
    '''Random sequence of operations over the forms; each is assembled at least once'''
    ids = sorted(forms)
    coefs = coefficients(world, forms)
    ops = []
    order = ids[:]
    rng.shuffle(order)
    todo = order + [pick(rng, ids) for _ in range(max(0, n - len(ids)))]
    for fid in todo:
        x = rng.random()
        if rng.random() < 0.5*p_upd:
            ops.append({'op': 'updc', 'i': rng.randrange(100), 'v': round(rng.uniform(0.5, 2), 3)})
        if p_remark and rng.random() < p_remark:
            ops.append({'op': 'remark', 'i': rng.randrange(100), 'seed': rng.randrange(10**6)})
        if coefs and x < p_upd:
            ops.append({'op': 'upd', 'fun': list(pick(rng, coefs)), 'seed': rng.randrange(10**6), 'how': pick(rng, UPDATES)})
        elif x < p_upd + p_gc:
            ops.append({'op': 'gc'})
        elif x < p_upd + p_gc + p_rebuild:
            ops.append({'op': 'rebuild', 'form': pick(rng, ids)})
        elif x < p_upd + p_gc + 2*p_rebuild:
            ops.append({'op': 'drop', 'i': rng.randrange(100)})
        if rng.random() < p_scribble:
            ops.append({'op': 'scribble', 'i': rng.randrange(100)})
        op = {'op': 'asm', 'form': fid}
        if rng.random() < 0.3:
            op['lazy'] = True
        if rng.random() < p_keep:
            op['keep'] = True
        if rng.random() < p_inputs:
            op['inputs'] = True
        if rng.random() < p_fault:
            op['fault'] = {'kind': pick(rng, FAULTKINDS), 'at': rng.random()}
        ops.append(op)
    return ops
