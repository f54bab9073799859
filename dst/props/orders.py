'''Results do not depend on the schedule of independent work, order of terms, sets, hashes'''
from props.common import *
import random


def plan(rng, tier):
    world, make = family(rng)
    forms = make(rng.randint(3, 5))
    p = finish(rng, world, forms, rng.randint(3, 5), (4, 6), p_upd=0, p_inputs=0.1, p_keep=0.2, p_gc=0.1)
    p['ops'] = [o for o in p['ops'] if o['op'] not in ('upd', 'updc')]
    p['schedules'] = [rng.randrange(10**6) for _ in range(2)]
    return p


def run(plan, sim):
    from forms import Run
    import numpy as np
    from sim import seed_sets
    import gc

    def execute(ops, plan):
        r = Run(dict(plan, ops=ops), sim)
        r.run()
        return {'%d %s' % (i, fid): v for i, f in r.worlds.items() for fid, v in f.seen.items()}

    def other(seed):
        rng = random.Random(seed)
        seed_sets(seed)
        ops = [o for o in plan['ops'] if o['op'] not in ('forget', )]
        rng.shuffle(ops)
        for _ in range(3):
            ops.insert(rng.randrange(len(ops)+1), {'op': 'gc', 'world': 0})
        return execute(ops, dict(plan, reverse=rng.random() < 0.7))

    alternatives = [sim.elsewhere(lambda: other(s)) for s in plan['schedules']]
    plan0 = dict(plan)
    base = execute([o for o in plan['ops'] if o['op'] != 'forget'], plan0)
    for i, alt in enumerate(alternatives):
        sim.count('schedules')
        for k, v in base.items():
            scale = np.max(np.abs(v)) if v.size else 0
            sim.close(alt[k], v, scale, 'schedule', 'result %s in schedule %d' % (k, i), tol=1e-10)
    for k, v in base.items():
        r = np.random.RandomState(7).uniform(-1, 1, v.shape)
        sim.values[k] = {'is': [float(np.sum(v*r)), float(np.sum(v))], 'scale': [float(np.sum(np.abs(v)))]*2}
