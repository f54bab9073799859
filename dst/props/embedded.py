'''Meshes of marked entities and their maps to the parents'''
from meshes import *


def plan(rng, tier):
    ops = [gen_mark(rng), gen_mark(rng, codim=1), gen_mark(rng, codim=0, how='strips', ntags=rng.randint(2, 4))]

    def call():
        k = rng.random()
        if k < 0.42:
            return gen_embed(rng)
        if k < 0.5:
            return {'do': 'skeleton', 'on': rng.randrange(100), 'bdry': rng.random() < 0.5}
        if k < 0.65:
            return {'do': 'buildmap', 'i': rng.randrange(1000), 'sub': rng.random() < 0.4, 'as': rng.choice(['list', 'tuple', 'set']),
                    'seed': rng.randrange(10**6)}
        if k < 0.78:
            return {'do': 'overlap', 'i': rng.randrange(1000)}
        return {'do': 'mortar', 'f': rng.randrange(100), 'ntags': rng.choice([2, 2, 3, 4]), 'strict': rng.random() < 0.4,
                'as': rng.choice(['list', 'tuple']), 'some': rng.random() < 0.35, 'take': rng.random() < 0.4,
                'seed': rng.randrange(10**6)}

    def job():
        return gen_embedding(rng) if rng.random() < 0.3 else call()

    for _ in range(rng.randint(14, 24)):
        k = rng.random()
        if k < 0.16:
            ops.append(gen_mark(rng))
        elif k < 0.6:
            ops.append(decorate(rng, call(), p_keep=0.15))
        elif k < 0.76:
            op = dict(gen_embedding(rng), op='embedding')
            if rng.random() < 0.5:
                op['faults'] = [gen_fault(rng) for _ in range(rng.randint(1, 2))]
            ops.append(op)
        elif k < 0.8:
            ops.append({'op': 'again', 'i': rng.randrange(100)})
        elif k < 0.85:
            ops.append({'op': 'remark', 'f': rng.randrange(100), 'seed': rng.randrange(10**6)})
        elif k < 0.93:
            ops.append(gen_par(rng, job))
        elif k < 0.97:
            ops.append({'op': 'scribble', 'i': rng.randrange(100)})
        else:
            ops.append({'op': 'gc'})
    return {'meshes': gen_meshes(rng), 'ops': ops}


def run(plan, sim):
    Meshes(plan, sim).run()
