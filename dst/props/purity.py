'''Inputs stay as they were, results are independent of each other'''
from props.common import *


def again(rng, world, forms):
    '''What one form reduces is in the other one reduced again by another operator'''
    for name in sorted(forms):
        t = forms[name]['terms'][0]
        if len(forms) > 5 or t['k'] not in ('linr', 'linf', 'val'):
            continue
        s = world['red'][t['red']]
        e = t['elm'] if t['k'] in ('linf', 'val') else t['q']
        others = [r for r, x in sorted(world['red'].items()) if r != t['red'] and x['gamma'] == s['gamma'] and
                  x['fam'] == 'average' == s['fam'] and average.usable(world, r, e)]
        if others:
            t.pop('over', None)
            first, other = dict(t), pick(rng, others)
            forms[name + 'x'] = dict(forms[name], terms=[dict(first, red=other, over=t['red'])])


def plan(rng, tier):
    twice = rng.random() < 0.35
    world, make = family(rng, 'average' if twice else None)
    forms = make(rng.randint(2, 3), ['linr', 'linf', 'val']) if twice else make(rng.randint(3, 4))
    if twice:
        again(rng, world, forms)
    p = finish(rng, world, forms, rng.randint(3, 6), (8, 12), p_upd=0.2, p_inputs=1.0, p_keep=0.9, p_gc=0.1, p_scribble=0.4)
    if twice:
        p['marks'] = True
    for op in p['ops']:
        if op['op'] == 'asm' and rng.random() < 0.3:
            op['twice'] = True
    return p


def run(plan, sim):
    from forms import Run
    Run(plan, sim).run()
