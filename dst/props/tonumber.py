'''Reductions to numbers: point values and gradients, means, patch averages'''
from plans import *

KINDS = ['bil', 'bilT', 'TT', 'lin', 'linr', 'linf', 'val']


def elm_of(rng, world, r):
    s = world['red'][r]
    if s['fam'] == 'point':
        return pick(rng, ['D0', 'D1', 'D2'])
    if s['fam'] == 'gpoint':
        return pick(rng, ['D1', 'D2'])
    if s['fam'] == 'mean':
        return pick(rng, ['P1', 'P2', 'D0', 'D1', 'CR'] if world['mesh'][s['bulk']].get('m') != 'int' else ['P1', 'P2', 'D0', 'D1'])
    if s['fam'] == 'surfmean':
        return pick(rng, ['P1', 'P2', 'D0', 'D1', 'CR'] if s['where'] == 'ext' else ['P1', 'P2'])
    return pick(rng, s['elms'])


def scalar(rng, world, r):
    s = world['red'][r]
    if s['fam'] in ('point', 'gpoint'):
        return 'D1'
    return 'P1'


def make_world(rng, fam=None):
    fam = fam or pick(rng, ['point', 'gpoint', 'mean', 'surfmean', 'patch', 'point+', 'patch'])
    mark, red, mesh = {}, {}, {}
    if fam in ('point', 'gpoint', 'point+'):
        kind = pick(rng, ['int', 'line2', 'line3'])
        if kind == 'int':
            mesh['m0'] = {'m': 'int', 'n': rng.randint(2, 5), 'pert': rng.randrange(100)}
        else:
            k = int(kind[-1])
            mesh['m0'] = {'g': 'line', 'a': [rng.uniform(0, 0.4) for _ in range(k)], 'b': [rng.uniform(0.6, 1) for _ in range(k)],
                          'n': rng.randint(2, 5)}
        for j in range(rng.randint(2, 4)):
            f = pick(rng, ['point', 'gpoint']) if fam == 'point+' else fam
            s = {'fam': f, 'bulk': 'm0', 'gamma': 'm0', 'cell': rng.randrange(5), 'local': rng.randrange(2)}
            if f == 'gpoint':
                s.update(tangent=rng.randrange(3), tkind=pick(rng, ['array', 'tuple', 'constant']))
                if red and rng.random() < 0.6:      # Same place, other direction
                    o = pick(rng, sorted(red))
                    s.update(cell=red[o]['cell'], local=red[o]['local'])
            red['r%d' % j] = s
        dim = 1
    elif fam == 'mean':
        dim = pick(rng, [1, 2, 2, 3])
        mesh['m0'] = {1: {'m': 'int', 'n': 4, 'pert': 3}, 2: mesh2d(rng), 3: mesh3d(rng)}[dim]
        mark['c'] = {'mesh': 'm0', 'dim': dim, 'seed': rng.randrange(10**6), 'ntags': 2, 'density': 0.8, 'max': 40}
        for j in range(rng.randint(2, 4)):
            s = {'fam': 'mean', 'bulk': 'm0', 'gamma': 'm0', 'cells': 'c'}
            w = pick(rng, [None, None, 'const', 'P1', 'D0'])
            if w == 'const':
                s.update(weight='const', c=round(rng.uniform(0.5, 2), 3))
            elif w:
                s.update(weight=w, idx=rng.randrange(2))
            t = pick(rng, [None, [1], [2], [1, 2]])
            if t:
                s['tags'] = t
            red['r%d' % j] = s
    elif fam == 'surfmean':
        dim = 3 if rng.random() < 0.25 else 2
        mesh['m0'] = mesh2d(rng) if dim == 2 else mesh3d(rng)
        for g in range(rng.randint(1, 3)):
            where = pick(rng, ['ext', 'any'])
            mark['k%d' % g] = {'mesh': 'm0', 'dim': dim-1, 'seed': rng.randrange(10**6), 'ntags': 1, 'where': where,
                               'density': rng.uniform(0.2, 0.7), 'max': 12 if dim == 2 else 8}
            mesh['g%d' % g] = {'g': pick(rng, ['emb', 'copy']), 'mark': 'k%d' % g, 'tags': [1]}
            red['r%d' % g] = {'fam': 'surfmean', 'bulk': 'm0', 'gamma': 'g%d' % g, 'where': where}
    else:
        dim = 3 if rng.random() < 0.25 else 2
        mesh['m0'] = mesh2d(rng) if dim == 2 else mesh3d(rng)
        if dim == 3:
            mesh['m0']['n'] = 2
        dirac = rng.random() < 0.2
        if dirac:
            # Nodes of gamma are nodes of the bulk
            mark['k'] = {'mesh': 'm0', 'dim': 1, 'seed': rng.randrange(10**6), 'ntags': 1, 'density': 0.3, 'max': 6}
            mesh['g0'] = {'g': 'emb', 'mark': 'k', 'tags': [1]}
        else:
            mesh['g0'] = {'g': 'line', 'a': [0.1]*dim, 'b': [0.8]*dim, 'n': rng.randint(2, 5)}
        elms = rng.sample(['P1', 'P2'] if dirac else ['P1', 'P2', 'D0', 'D1', 'CR'], rng.randint(1, 2))
        for j in range(rng.randint(2, 3)):
            s = {'fam': 'patch', 'elms': elms, 'bulk': 'm0', 'gamma': 'g0', 'velm': 'P1' if dirac else pick(rng, ['P1', 'D0', 'P2']),
                 'seed': rng.randrange(10**6), 'ncolors': rng.randint(1, 4), 'dirac': dirac}
            if not dirac and rng.random() < 0.6:
                s['coloring'] = True
            if red:             # Share something with other operator
                o = red[pick(rng, sorted(red))]
                how = pick(rng, ['v', 'v', 'p', 'both', ''])
                if how:
                    s.update(velm=o['velm'], ncolors=o['ncolors'])
                if how in ('v', 'both'):
                    s['vseed'] = o.get('vseed', o['seed'])
                if how in ('p', 'both'):
                    s['pseed'] = o.get('pseed', o['seed'])
            red['r%d' % j] = s
    return {'mesh': mesh, 'mark': mark, 'red': red, 'dim': dim}


def partner_of(world):
    def f(rng, e):
        s = next(iter(world['red'].values()))
        if s['fam'] in ('mean', 'point', 'gpoint') and rng.random() < 0.3:
            return 'R'
        return pick(rng, ['D0', 'D1', 'P1', 'P2'])
    return f


def usable(world, r, key):
    f = world['red'][r]['fam']
    if f in ('point', 'gpoint'):
        return key in (('D0', 'D1', 'D2') if f == 'point' else ('D1', 'D2'))
    return True


def make_forms(rng, world, n):
    reds = sorted(world['red'])
    return {'f%d' % i: random_form(rng, world, reds, elm_of, KINDS, scalar, usable=usable, partner=partner_of(world),
                                   tag_ok=False) for i in range(n)}


def plan(rng, tier):
    world = make_world(rng)
    forms = make_forms(rng, world, rng.randint(3, 4))
    faulty = rng.random() < 0.3
    return finish(rng, world, forms, rng.randint(4, 8), (4, 7), p_fault=0.4 if faulty else 0.)


def run(plan, sim):
    from forms import Run
    Run(plan, sim).run()
