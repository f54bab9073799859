'''Trace operators'''
from plans import *

KINDS = ['bil', 'bilT', 'TT', 'lin', 'linr', 'linf', 'val']


def scalar(rng, world, r):
    s = world['red'][r]
    if s.get('restr') or s.get('where') == 'ext':
        return pick(rng, ['P1', 'D0', 'D1'])
    return 'P1'


def make_forms(rng, world, n):
    reds = sorted(world['red'])
    return {'f%d' % i: random_form(rng, world, reds, trace_elm, KINDS, scalar) for i in range(n)}


def plan(rng, tier):
    world = trace_world(rng)
    forms = make_forms(rng, world, rng.randint(3, 5))
    faulty = rng.random() < 0.3
    return finish(rng, world, forms, rng.randint(4, 8), (4, 8), p_fault=0.4 if faulty else 0.)


def run(plan, sim):
    from forms import Run
    Run(plan, sim).run()
