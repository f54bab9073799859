'''Any of the families of operators'''
from plans import *
from props import trace, average, transfer, tonumber

FAMS = ['trace', 'trace', 'average', 'flux', 'restriction', 'injection', 'transpose', 'point', 'gpoint', 'mean', 'surfmean', 'patch']


def family(rng, fam=None):
    '''-> (world, function making n forms of given kinds)'''
    fam = fam or pick(rng, FAMS)
    LEAN[0] = rng.random() < 0.8
    if fam == 'trace':
        world, mod = trace_world(rng), trace
    elif fam == 'parts':        # Map of gamma into the mesh is made for some of its tags only
        world, mod = pick(rng, [split_world, glued_world])(rng), trace
    elif fam in ('average', 'flux'):
        world, mod = average.make_world(rng), average
    elif fam in ('restriction', 'injection', 'transpose'):
        world, mod = transfer.make_world(rng, fam), transfer
    else:
        world, mod = tonumber.make_world(rng, fam), tonumber

    def make(n, kinds=None):
        old = mod.KINDS
        if kinds is not None:
            mod.KINDS = kinds
        try:
            if mod is average:
                return {'f%d' % i: average.one(rng, world) for i in range(n)}
            return mod.make_forms(rng, world, n)
        finally:
            mod.KINDS = old
    return world, make
