'''Averages over shapes around a line, averages of normal flux, trace to a line'''
from plans import *

KINDS = ['bil', 'bilT', 'TT', 'lin', 'linr', 'linf', 'val']
FLUX_KINDS = ['bil', 'bilT', 'TT1', 'lin']
# Points of generic lines are inside of cells
GENERIC = ['P1', 'P1', 'P2', 'VP1', 'VP2', 'TP1', 'D0', 'D1', 'VD0', 'VD1', 'RT1', 'N1']
EDGE = ['P1', 'P1', 'P2', 'VP1', 'VP2']
FLUX = ['VP1', 'VP2', 'RT1', 'BD1', 'VD1', 'VD0', 'N1']
FLUX_EDGE = ['VP1', 'VP2']


def elm_of(rng, world, r):
    s = world['red'][r]
    line = world['mesh'][s['gamma']]['g'] == 'line'
    if s['fam'] == 'flux':
        return pick(rng, FLUX if line else FLUX_EDGE)
    if s['shape'] is None:
        return pick(rng, ['P1', 'P2', 'VP1', 'D0'] if line else ['P1', 'P2', 'VP1'])
    return pick(rng, GENERIC if line else EDGE)


def scalar(rng, world, r):
    s = world['red'][r]
    return pick(rng, ['P1', 'D0'] if world['mesh'][s['gamma']]['g'] == 'line' else ['P1'])


def make_world(rng):
    mesh = {'m0': mesh3d(rng)}
    mesh['m0'].update(n=rng.randint(1, 2), k=rng.randint(1, 2), l=rng.randint(2, 3))
    mark, red = {}, {}
    for g in range(rng.randint(1, 2)):
        name = 'g%d' % g
        axis = rng.randrange(3)
        if rng.random() < 0.65:
            a = [rng.uniform(0.15, 0.35) for _ in range(3)]
            b = [rng.uniform(0.6, 0.85) for _ in range(3)]
            parallel = rng.random() < 0.5
            if parallel:
                b = [b[i] if i == axis else a[i] for i in range(3)]
                if rng.random() < 0.5:
                    a, b = b, a
                # Almost along the axis
                if rng.random() < 0.4:
                    parallel, tilt = False, 10**rng.uniform(-4, -0.8)
                    b = [b[i] if i == axis else b[i] + rng.uniform(0.5, 1)*tilt for i in range(3)]
            mesh[name] = {'g': 'line', 'a': a, 'b': b, 'n': rng.randint(2, 4)}
        else:
            parallel = False
            mark['k%d' % g] = {'mesh': 'm0', 'dim': 1, 'seed': rng.randrange(10**6), 'ntags': 1, 'density': 0.3, 'max': 4}
            mesh[name] = {'g': 'emb', 'mark': 'k%d' % g, 'tags': [1]}
        line = mesh[name]['g'] == 'line'
        for j in range(rng.randint(2, 3)):
            flux = rng.random() < 0.3
            shapes = ['Circle', 'Circle', 'Disk'] + (['Square', 'SquareRim'] if parallel else []) + [None]
            shape = 'Circle' if flux else pick(rng, shapes)
            s = {'fam': 'flux' if flux else 'average', 'bulk': 'm0', 'gamma': name, 'shape': shape, 'axis': axis}
            if shape is not None:
                s.update(R=round(rng.uniform(0.05, 0.3), 4), deg=rng.choice([2, 4, 6, 8]) if not line else rng.randint(2, 7))
                if rng.random() < 0.4:
                    s['var'] = round(rng.uniform(0.05, 0.3), 3)
                if shape == 'Disk' and rng.random() < 0.3:
                    s['deg'] = rng.randint(8, 20)
                if shape == 'Square':
                    s['deg'] = min(s['deg'], 4)
                if shape in ('Square', 'SquareRim'):
                    s['angle'] = round(rng.uniform(0, 6), 3)
            red['r%d%d' % (g, j)] = s
    return {'mesh': mesh, 'mark': mark, 'red': red, 'dim': 3}


def one(rng, world):
    reds = sorted(world['red'])
    flux = [r for r in reds if world['red'][r]['fam'] == 'flux']
    avg = [r for r in reds if world['red'][r]['fam'] == 'average']
    if flux and (not avg or rng.random() < 0.4):
        return random_form(rng, world, flux, elm_of, ['bil', 'bilT', 'lin'], scalar, weights=False, maxterms=1,
                           partner=lambda rng, e: pick(rng, GAMMA_Q))
    f = random_form(rng, world, avg, elm_of, KINDS, scalar, usable=usable)
    return f


def usable(world, r, key):
    s = world['red'][r]
    if s['shape'] is None and key not in ('P1', 'P2', 'VP1', 'VP2', 'D0'):
        return False
    return world['mesh'][s['gamma']]['g'] == 'line' or key in EDGE


def plan(rng, tier):
    world = make_world(rng)
    forms = {'f%d' % i: one(rng, world) for i in range(rng.randint(3, 4))}
    faulty = rng.random() < 0.3
    plan = finish(rng, world, forms, rng.randint(4, 8), (4, 7), p_fault=0.4 if faulty else 0.)
    shapes = [r for r, s in sorted(world['red'].items()) if s['fam'] == 'average' and s['shape']]
    for _ in range(rng.randint(0, 3) if shapes else 0):
        r, w = pick(rng, shapes), rng.randrange(len(plan['worlds']))
        if r in plan['worlds'][w]['red']:
            plan['ops'].insert(rng.randrange(len(plan['ops'])), {
                'op': 'measure', 'world': w, 'red': r, 'key': elm_of(rng, world, r),
                'fault': {'kind': pick(rng, FAULTKINDS), 'at': rng.random()} if faulty and rng.random() < 0.5 else None})
    disks = [r for r in shapes if world['red'][r]['shape'] == 'Disk']
    for _ in range(rng.randint(1, 3) if disks else 0):
        r, w = pick(rng, disks), rng.randrange(len(plan['worlds']))
        if r in plan['worlds'][w]['red']:
            plan['ops'].insert(rng.randrange(len(plan['ops'])), {
                'op': 'rule', 'world': w, 'red': r, 'poly': rng.randrange(10**6), 'x0': [round(rng.uniform(-1, 1), 3) for _ in range(3)],
                'n': pick(rng, [[0, 0, 1.], [0, 0, -1.], [1., 0, 0], [10**rng.uniform(-4, -0.5), 10**rng.uniform(-5, -1), pick(rng, [-1., 1.])], [round(rng.uniform(0.1, 1), 3) for _ in range(3)]]),
                'fault': {'kind': pick(rng, FAULTKINDS), 'at': rng.random()} if faulty and rng.random() < 0.3 else None})
    return plan


def run(plan, sim):
    from forms import Run
    Run(plan, sim).run()
