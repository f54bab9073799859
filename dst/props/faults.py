'''Interrupted operations leave nothing behind'''
from props.common import *


def plan(rng, tier):
    world, make = family(rng)
    forms = make(rng.randint(3, 4))
    p = finish(rng, world, forms, rng.randint(2, 4), (5, 8), p_fault=0.8, p_upd=0.1, p_inputs=0.8, p_keep=0.4, p_gc=0.1)
    for op in p['ops']:
        if op.get('fault'):
            # More than one attempt fails; also the conversion of the product
            op['faults'] = [op.pop('fault')] + [{'kind': pick(rng, FAULTKINDS), 'at': rng.random()} for _ in range(rng.randrange(3))]
            if rng.random() < 0.5:
                op['cfault'] = {'kind': pick(rng, FAULTKINDS), 'at': rng.random()}
    # Building of meshes is interrupted too
    for i, w in enumerate(p['worlds']):
        for name, m in sorted(w['mesh'].items()):
            if 'g' in m and rng.random() < 0.6:
                p['ops'].insert(0, {'op': 'mesh', 'world': i, 'name': name,
                                    'fault': {'kind': pick(rng, FAULTKINDS), 'at': rng.random()}})
    return p


def run(plan, sim):
    from forms import Run
    Run(plan, sim).run()
