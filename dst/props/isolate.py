'''Operators that differ in one parameter do not get each other's results'''
from props.common import *
from props import trace, average, transfer, tonumber
import copy


def more(rng, world, n):
    '''Clone operators and change their parameters'''
    red = world['red']
    for i in range(n):
        src = pick(rng, sorted(red))
        s = copy.deepcopy(red[src])
        fam = s['fam']
        if fam == 'trace' and s['conf']:
            opts = {'int': ['+', '-', 'avg', 'jump'], 'ext': ['+', 'avg'], 'any': ['+', 'avg', 'jump']}[s['where']]
            if s.get('restr') or rng.random() < 0.7:
                s['restr'] = pick(rng, opts)
                s['normal'] = rng.randrange(2)
            if s.get('gtags') and rng.random() < 0.5:
                s['tag'] = sorted(rng.sample(s['gtags'], rng.randint(1, len(s['gtags']))))
                s['tagset'] = rng.random() < 0.3
        elif fam == 'average' and s['shape'] is not None:
            x = rng.random()
            if x < 0.4:
                s['R'] = round(rng.uniform(0.05, 0.3), 4)
            elif x < 0.6:
                s['shape'] = {'Circle': 'Disk', 'Disk': 'Circle', 'Square': 'SquareRim', 'SquareRim': 'Square'}[s['shape']]
                if s['shape'] == 'Square':
                    s['deg'] = min(s['deg'], 4)
            elif x < 0.8:
                s['deg'] = s['deg'] + 1 if s['shape'] != 'Square' else s['deg']
            else:
                s['var'] = round(rng.uniform(0.05, 0.3), 3)
        elif fam == 'flux':
            s['R'] = round(rng.uniform(0.05, 0.3), 4)
        elif fam == 'gpoint' and rng.random() < 0.5:
            s['tangent'] = rng.randrange(5)
        elif fam == 'mean':
            s.pop('weight', None)
            w = pick(rng, [None, 'const', 'P1', 'D0'])
            if w == 'const':
                s.update(weight='const', c=round(rng.uniform(0.5, 2), 3))
            elif w:
                s.update(weight=w, idx=rng.randrange(2))
            s.pop('tags', None)
            t = pick(rng, [None, [1], [2], [1, 2]])
            if t:
                s['tags'] = t
        else:
            mutate_red(rng, world, s)
        red['x%d' % i] = s


def twins(rng, world, fam):
    '''Reduced meshes with the same number of cells (and markers, elements...) that are elsewhere'''
    mesh, mark, red = world['mesh'], world['mark'], world['red']
    side = 'bulk' if fam == 'transpose' else 'gamma'
    name = pick(rng, sorted(set(s[side] for s in red.values())))
    m = copy.deepcopy(mesh[name])
    if m.get('g') in ('emb', 'copy', 'subold', 'sub'):
        f = copy.deepcopy(mark[m['mark']])
        if 'seed' not in f or f.get('plane'):
            return
        f['seed'] = rng.randrange(10**6)
        mark['kt'] = f
        m['mark'] = 'kt'
    elif m.get('g') == 'line' and fam != 'patch':
        for i in range(len(m['a'])):
            if m['a'][i] != m['b'][i]:
                m['a'][i] = min(m['a'][i] + rng.uniform(0.02, 0.1), 0.45)
                m['b'][i] = max(m['b'][i] - rng.uniform(0.02, 0.1), 0.55)
    elif m.get('g') in ('centroid', 'star'):
        m.update(g='star', w=[round(rng.uniform(0.2, 1), 3) for _ in range(4)])
    else:
        return
    mesh['gt'] = m
    for k, s in sorted(red.items()):
        if s[side] == name:
            red['t' + k] = dict(copy.deepcopy(s), **{x: 'gt' for x in ('bulk', 'gamma') if s[x] == name})
            if 'facets' in s:
                red['t' + k]['facets'] = 'kt'


def plan(rng, tier):
    fam = pick(rng, ['trace', 'trace', 'average', 'flux', 'restriction', 'injection', 'transpose', 'point', 'gpoint', 'point+', 'mean',
                     'surfmean', 'patch'])
    world, _ = family(rng, fam)
    if rng.random() < 0.6:
        twins(rng, world, fam)
    more(rng, world, rng.randint(2, 6))
    mod = {'trace': trace, 'average': average, 'flux': average, 'restriction': transfer, 'injection': transfer,
           'transpose': transfer}.get(fam, tonumber)
    forms, reds = {}, sorted(world['red'])
    elm_of = trace_elm if fam == 'trace' else mod.elm_of
    # Two elements and one partner: as many shared pieces as possible
    for j in range(2):
        r0 = pick(rng, reds)
        e = elm_of(rng, world, r0)
        ok = [r for r in reds if ok_for(world, fam, mod, r, e)]
        q = pick(rng, ['P1', 'D0', 'D1']) if e != 'R' else 'P1'
        for r in ok:
            s = world['red'][r]
            flux = s['fam'] == 'flux'
            for kind in rng.sample(['bil', 'bilT', 'lin'] if flux else ['bil', 'bilT', 'linf', 'lin', 'TT'], 1):
                f = {'terms': [{'k': kind, 'red': r}]}
                t = f['terms'][0]
                if kind == 'bil':
                    f.update(test=[s['gamma'], q], trial=[s['bulk'], e])
                elif kind == 'bilT':
                    f.update(trial=[s['gamma'], q], test=[s['bulk'], e])
                elif kind == 'linf':
                    f.update(test=[s['gamma'], q])
                    t.update(elm=e, qi=0)
                elif kind == 'lin':
                    f.update(test=[s['bulk'], e])
                    t.update(q=q, qi=0)
                else:
                    f.update(trial=[s['bulk'], e], test=[s['bulk'], e])
                    t['red2'] = pick(rng, [x for x in ok if world['red'][x]['gamma'] == s['gamma'] and
                                           world['red'][x]['bulk'] == s['bulk'] and world['red'][x]['fam'] == s['fam']])
                forms['f%d%s%s' % (j, r, kind)] = f
    return finish(rng, world, forms, rng.randint(2, 5), (len(forms), len(forms) + 4), p_forget=0.4, p_inputs=0.05, p_keep=0.1,
                  p_gc=0.1, p_rebuild=0.15)


def ok_for(world, fam, mod, r, e):
    s = world['red'][r]
    if fam == 'trace':
        if e in ('DLT', 'VDLT'):
            return s.get('conf', True) and s.get('restr') not in ('avg', 'jump')
        if not s.get('conf', True):
            return e in ('P1', 'P2', 'VP1')
        return bool(s.get('restr')) or s.get('where') == 'ext' or e in CONT
    if mod is average:
        line = world['mesh'][s['gamma']]['g'] == 'line'
        if s['fam'] == 'flux':
            return e in (average.FLUX if line else average.FLUX_EDGE)
        return average.usable(world, r, e)
    return mod.usable(world, r, e)


def run(plan, sim):
    from forms import Run
    Run(plan, sim).run()
