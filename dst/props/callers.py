'''Several callers, callbacks of users'''
from props.common import *


def plan(rng, tier):
    world, make = family(rng, pick(rng, FAMS + ['average']*4))
    forms = make(rng.randint(3, 4))
    p = finish(rng, world, forms, rng.randint(2, 4), (3, 5), p_upd=0.2, p_inputs=0.1, p_keep=0.3, p_gc=0.1)
    n = len(p['worlds'])
    ids = sorted(forms)
    for _ in range(rng.randint(8, 14)):
        jobs = [{'world': rng.randrange(n), 'form': pick(rng, ids)} for _ in range(rng.randint(2, 3))]
        if rng.random() < 0.5:
            for j in jobs[1:]:      # The same mesh
                j['world'] = jobs[0]['world']
        # Same form object at the same place would be the same call
        seen, js = set(), []
        for j in jobs:
            if (j['world'], j['form']) not in seen:
                seen.add((j['world'], j['form']))
                js.append(j)
        if len(js) < 2:
            continue
        if rng.random() < 0.3:
            js[0]['fault'] = {'kind': pick(rng, FAULTKINDS), 'at': rng.random()}
        p['ops'].insert(rng.randrange(len(p['ops'])+1), {'op': 'par', 'jobs': js, 'seed': rng.randrange(10**6),
                                                        'p': pick(rng, [0.02, 0.1, 0.5]),
                                                        'cold': rng.random() < 0.5})
    if any(s.get('var') for s in world['red'].values()):
        for _ in range(4):
            p['ops'].insert(rng.randrange(len(p['ops'])+1), {
                'op': 'nested', 'world': rng.randrange(n), 'form': pick(rng, ids), 'inner': [rng.randrange(n), pick(rng, ids)],
                'at': rng.randint(1, 9), 'cold': rng.random() < 0.7})
    return p


def run(plan, sim):
    from forms import Run
    Run(plan, sim).run()
