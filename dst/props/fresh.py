'''Forms see the current values of coefficients, constants, weights, tangents'''
from props.common import *

KINDS = ['lin', 'linr', 'linf', 'val', 'bil', 'bilT']


def plan(rng, tier):
    # Reductions whose markers can be changed have their own share
    fam = pick(rng, ['parts', 'parts', 'patch', 'patch', 'mean']) if rng.random() < 0.4 else None
    world, make = family(rng, fam)
    if fam == 'patch' and rng.random() < 0.8:       # With coloring the patches stay as they are
        for s in world['red'].values():
            s.pop('coloring', None)
    forms = make(rng.randint(3, 4), KINDS)
    return finish(rng, world, forms, rng.randint(4, 8), (6, 10), p_upd=0.7, p_inputs=0.1, p_keep=0.1, p_gc=0.05,
                  p_rebuild=0.03, p_remark=0.8 if fam else 0.3, p_fault=0.15 if rng.random() < 0.3 else 0)


def run(plan, sim):
    from forms import Run
    Run(plan, sim).run()
