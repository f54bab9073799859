'''Restriction to subdomain meshes, injection to refined meshes, transpose of trace'''
from plans import *

KINDS = ['bil', 'bilT', 'TT', 'lin', 'linr', 'linf', 'val']
ANY = ['P1', 'P2', 'VP1', 'VP2', 'TP1', 'MIX', 'D0', 'D1', 'CR', 'RT1', 'N1', 'VD0', 'VD1', 'VCR', 'MX1', 'BD1']
# Interpolants that do not depend on the side
INTERP = {'P1': ['P2', 'D0', 'D1', 'CR', 'P1'], 'P2': ['P1', 'D1', 'CR'], 'VP1': ['VP2', 'RT1', 'N1', 'VD0', 'VCR'], 'VP2': ['VP1', 'VD1', 'RT1'],
          'RT1': ['VD0', 'VD1'], 'N1': ['VD1'], 'D0': ['D1'], 'D1': ['D0'], 'CR': ['D1', 'D0']}
NODAL = ['P1', 'P2', 'VP1', 'VP2', 'TP1', 'D0', 'VD0']


def elm_of(rng, world, r):
    s = world['red'][r]
    if s['fam'] == 'transpose':
        return pick(rng, ['P1', 'P2', 'VP1', 'VP2'])
    if s['fam'] == 'injection' and s['method'] is not None:
        # Transfer by point evaluation
        return pick(rng, ['P1', 'P2', 'VP1', 'P1', 'VP2'])
    pool = ANY
    if world['dim'] == 3:
        pool = [e for e in pool if e not in ('MIX', 'VP2', 'TP1', 'VCR', 'BD1')]
    if s['fam'] == 'injection':
        pool = [e for e in pool if e not in ('MIX', 'MX1', 'CR', 'VCR')]
    return pick(rng, pool)


def scalar(rng, world, r):
    s = world['red'][r]
    if s['fam'] == 'restriction' or (s['fam'] == 'injection' and s['method'] is None):
        return pick(rng, ['P1', 'D0', 'D1'])
    return 'P1'


def make_world(rng, fam=None):
    fam = fam or pick(rng, ['restriction', 'restriction', 'injection', 'transpose'])
    dim = 3 if rng.random() < 0.25 else 2
    mesh = {'m0': mesh2d(rng) if dim == 2 else mesh3d(rng)}
    mark, red = {}, {}
    if fam == 'restriction':
        ntags = rng.randint(1, 3)
        mark['c'] = {'mesh': 'm0', 'dim': dim, 'seed': rng.randrange(10**6), 'ntags': ntags, 'density': rng.uniform(0.3, 0.9), 'max': 20}
        for g in range(rng.randint(1, 3)):
            tags = sorted(rng.sample(range(1, ntags+1), rng.randint(1, ntags)))
            rng.shuffle(tags)
            mesh['g%d' % g] = {'g': pick(rng, ['emb', 'emb', 'subold']), 'mark': 'c', 'tags': tags, 'set': rng.random() < 0.3}
            red['r%d' % g] = {'fam': fam, 'bulk': 'm0', 'gamma': 'g%d' % g, 'gtags': tags}
    elif fam == 'injection':
        mesh['m0'].update(n=rng.randint(1, 3) if dim == 2 else 1, k=rng.randint(1, 3) if dim == 2 else 1)
        if dim == 3:
            mesh['m0']['l'] = 1
        for g in range(rng.randint(1, 2)):
            mesh['g%d' % g] = {'g': pick(rng, ['refine', 'refine', 'centroid', 'star']) if dim == 2 else pick(rng, ['refine', 'star']), 'mesh': 'm0'}
            if mesh['g%d' % g]['g'] == 'star':
                mesh['g%d' % g]['w'] = [round(rng.uniform(0.2, 1), 3) for _ in range(4)]
            if mesh['g%d' % g]['g'] != 'refine' and dim == 2 and rng.random() < 0.3:
                mesh['g%d' % g]['nrefs'] = 2
            for j in range(rng.randint(1, 2)):
                red['r%d%d' % (g, j)] = {'fam': fam, 'bulk': 'm0', 'gamma': 'g%d' % g, 'method': pick(rng, [None, 'interpolate'])}
    else:
        ntags = rng.randint(1, 3)
        mark['k'] = {'mesh': 'm0', 'dim': dim-1, 'seed': rng.randrange(10**6), 'ntags': ntags, 'where': 'ext', 'density': rng.uniform(0.3, 0.9), 'max': 14}
        mesh['g0'] = {'g': 'emb', 'mark': 'k', 'tags': list(range(1, ntags+1))}
        for j in range(rng.randint(1, 3)):
            red['r%d' % j] = {'fam': fam, 'bulk': 'g0', 'gamma': 'm0', 'facets': 'k', 'full': rng.random() < 0.3,
                              'tags': sorted(rng.sample(range(1, ntags+1), rng.randint(1, ntags)))}
    return {'mesh': mesh, 'mark': mark, 'red': red, 'dim': dim}


def partner_of(world):
    s = next(iter(world['red'].values()))
    if s['fam'] == 'transpose':
        return lambda rng, e: pick(rng, ['P1', 'P2', 'VP1'] if e[0] == 'V' else ['P1', 'P2', 'D0', 'CR', 'D1'])
    return partner


def usable(world, r, key):
    s = world['red'][r]
    if s['fam'] == 'injection' and s['method'] is not None:
        return key in ('P1', 'P2', 'VP1', 'VP2')
    return True


def make_forms(rng, world, n):
    reds = sorted(world['red'])
    return {'f%d' % i: random_form(rng, world, reds, elm_of, KINDS, scalar, usable=usable, partner=partner_of(world),
                                   tag_ok=True) for i in range(n)}


def plan(rng, tier):
    world = make_world(rng)
    forms = make_forms(rng, world, rng.randint(3, 4))
    faulty = rng.random() < 0.3
    plan = finish(rng, world, forms, rng.randint(4, 8), (4, 7), p_fault=0.4 if faulty else 0.)
    for _ in range(rng.randint(0, 3)):
        v = pick(rng, sorted(INTERP))
        plan['ops'].insert(rng.randrange(len(plan['ops'])), {
            'op': 'interp', 'world': rng.randrange(len(plan['worlds'])), 'spaces': ['m0', v, pick(rng, INTERP[v])],
            'fault': {'kind': pick(rng, FAULTKINDS), 'at': rng.random()} if faulty and rng.random() < 0.5 else None})
    return plan


def run(plan, sim):
    from forms import Run
    Run(plan, sim).run()
