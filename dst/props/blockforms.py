'''Block forms: adding by spaces, sums, permutations, adjoints, assembly of the whole'''
from props.common import *
from forms import *
from alg import gen_fault, FAULTKINDS as _

BIL, LIN = ['bil', 'bilT', 'TT'], ['lin', 'linr', 'linf']


def plan(rng, tier):
    fam = pick(rng, [f for f in FAMS if f != 'flux'] + ['flux'])
    world, make = family(rng, fam)
    LEAN[0] = True
    forms = {}
    while not any(f.get('trial') for f in forms.values()):
        for i in range(rng.randint(2, 3)):
            forms['b%d' % i] = make(1, BIL)['f0']
    for i in range(rng.randint(1, 2)):
        forms['l%d' % i] = make(1, LIN)['f0']
    ok = lambda f: all(world['red'][t['red']]['fam'] != 'flux' for t in f['terms'])
    inblock = sorted(k for k in forms if ok(forms[k]))
    sides = []
    for k in inblock:
        for x in ('test', 'trial'):
            if forms[k].get(x) and forms[k][x] not in sides:
                sides.append(forms[k][x])
    r0 = sorted(world['red'])[0]
    for i, s in enumerate(sides):
        if s[1] not in ('DLT', 'VDLT', 'R') and rng.random() < 0.7:
            forms['p%d' % i] = {'terms': [{'k': 'plain', 'red': r0, 'c': pick(rng, [1, 2.5])}], 'test': s, 'trial': s}
            inblock.append('p%d' % i)
    rng.shuffle(sides)
    dup = bool(sides) and rng.random() < 0.4
    if dup:         # Two unknowns from the same space
        sides.insert(rng.randrange(len(sides)+1), pick(rng, sides))
    bil = [k for k in inblock if forms[k].get('trial')]
    lin = [k for k in inblock if not forms[k].get('trial')]

    def place(k):
        rows = [i for i, s in enumerate(sides) if s == forms[k]['test']]
        cols = [i for i, s in enumerate(sides) if s == forms[k].get('trial')] if forms[k].get('trial') else [None]
        return pick(rng, rows), pick(rng, cols)
    ops, nb = [], 0
    kinds = []      # arity of block forms
    for _ in range(rng.randint(8, 14)):
        k = rng.random()
        if not sides or k < 0.1:
            ops.append({'op': 'adjoint', 'form': pick(rng, [f for f in sorted(forms) if forms[f].get('trial')]), 'sum': rng.random() < 0.3})
        elif k < 0.3 or nb == 0:
            arity = 2 if bil and (not lin or rng.random() < 0.7) else 1
            parts = []
            for f in (rng.sample(bil, rng.randint(1, len(bil))) if arity == 2 else rng.sample(lin, rng.randint(1, len(lin)))):
                i, j = place(f)
                first = (i == [x for x, s in enumerate(sides) if s == forms[f]['test']][0] and
                         (j is None or j == [x for x, s in enumerate(sides) if s == forms[f]['trial']][0]))
                parts.append([f, i, j, 'add' if first and rng.random() < 0.6 else 'set'])
            ops.append({'op': 'block', 'arity': arity, 'parts': parts, 'tri': pick(rng, [None, None, 'upper', 'lower']) if arity == 2 else None})
            nb += 1
        elif k < 0.45:
            ops.append({'op': 'sum', 'i': rng.randrange(100), 'j': rng.randrange(100)})
            nb += 1
        elif k < 0.6:
            order = list(range(len(sides)))
            rng.shuffle(order)
            ops.append({'op': 'permute', 'i': rng.randrange(100), 'order': order, 'spaces': rng.random() < 0.5})
            nb += 1
        elif k < 0.62:
            ops.append({'op': 'wrong', 'form': pick(rng, bil + lin), 'i': rng.randrange(100)} if bil + lin else {'op': 'check', 'i': rng.randrange(100)})
        elif k < 0.7:
            ops.append({'op': 'selfadjoint', 'i': rng.randrange(100)})
        elif k < 0.85:
            ops.append({'op': 'check', 'i': rng.randrange(100)})
        elif k < 0.93:
            coefs = coefficients(world, forms)
            if coefs:
                ops.append({'op': 'upd', 'fun': list(pick(rng, coefs)), 'seed': rng.randrange(10**6), 'how': pick(rng, UPDATES)})
        else:
            f = pick(rng, bil + lin) if bil + lin else None
            if f:
                i, j = place(f)
                ops.append({'op': 'more', 'form': f, 'i': rng.randrange(100), 'at': [i, j]})
        if rng.random() < 0.2:
            ops[-1]['faults'] = [gen_fault(rng) for _ in range(rng.randint(1, 2))]
    ops.append({'op': 'check', 'i': rng.randrange(100)})
    return {'worlds': [world], 'forms': forms, 'sides': sides, 'ops': [dict(o, world=0) for o in ops], 'order': rng.randrange(10**6)}


class BlockForms(Forms):
    def __init__(self, *args):
        Forms.__init__(self, *args)
        self.blocks = []        # [block form, arity, sides, {(i, j): [(form, transposed)]}]

    @property
    def W(self):
        return [self.w.space(*s) for s in self.plan['sides']]

    def attempt(self, op, f):
        '''f leaves existing things alone, even interrupted'''
        before = [self.cells(B, a, len(s)) for B, a, s, _ in self.blocks]
        for fault in op.get('faults') or ():
            self.sim.with_fault(f, fault)
            self.intact(before, 'an interrupted %s' % op['op'])
        out = f()
        self.intact(before, op['op'])
        return out

    def cells(self, B, arity, n):
        return [B[i] for i in range(n)] if arity == 1 else [B[i][j] for i in range(n) for j in range(n)]

    def intact(self, before, when):
        for (B, a, s, _), old in zip(self.blocks, before):
            now = self.cells(B, a, len(s))
            self.sim.check(all(x is y for x, y in zip(now, old)), 'input-changed', 'block form changed by %s' % when)

    def put(self, B, arity, part):
        f, i, j, how = part
        form = self.build(f)
        if how == 'add':
            B.add(form)
        elif arity == 1:
            B[i] = B[i] + form
        else:
            B[i][j] = B[i][j] + form

    def op_block(self, op):
        from xii.assembler.block_form import block_form
        n, arity = len(self.plan['sides']), op['arity']
        # Upper or lower part only
        parts = [p for p in op['parts'] if not op['tri'] or p[1] == p[2] or (p[1] < p[2]) == (op['tri'] == 'upper')]
        [self.build(p[0]) for p in parts]

        def f():
            B = block_form(self.W, arity)
            for p in parts:
                self.put(B, arity, p)
            return B
        B = self.attempt(op, f)
        model = {}
        for p in parts:
            model.setdefault((p[1], p[2]), []).append((p[0], False))
        self.blocks.append([B, arity, self.plan['sides'], model])
        self.shape_ok(len(self.blocks)-1)

    def shape_ok(self, k):
        from xii.assembler.block_form import (is_upper_triangular, is_lower_triangular, is_bilinear_form, is_linear_form, test_function,
                                              trial_function)
        B, arity, sides, model = self.blocks[k]
        n = len(sides)
        self.sim.check(len(B) == n and B.arity == arity, 'shape', 'block form %d' % len(B))
        self.sim.check([list(map(str, [V.ufl_element()])) for V in B.V0] == [[str(self.w.space(*s).ufl_element())] for s in sides] and
                       all(V.mesh().id() == self.w.mesh(s[0]).id() for V, s in zip(B.V0, sides)), 'shape', 'spaces of block form')
        if arity == 2:
            for is_, cond in ((is_upper_triangular, lambda i, j: i > j), (is_lower_triangular, lambda i, j: i < j)):
                self.sim.check(is_(B) == (not any(v and cond(*ij) for ij, v in model.items())), 'shape', is_.__name__)
        full = all(model.get((i, j)) for i in range(n) for j in (range(n) if arity == 2 else [None]))
        if arity == 1 or full:
            self.sim.reach('full', arity, n)
            self.sim.check(is_bilinear_form(B) == (arity == 2) and is_linear_form(B) == (arity == 1), 'shape', 'arity of block form')
            W = [self.w.space(*s) for s in sides]
            want = [W[i] for i in range(n) for _ in (range(n) if arity == 2 else [0])]
            self.sim.check([v.function_space() for v in test_function(B)] == want and all(v.number() == 0 for v in test_function(B)),
                           'shape', 'test functions')
            want = W*n if arity == 2 else []
            self.sim.check([v.function_space() for v in trial_function(B)] == want and all(v.number() == 1 for v in trial_function(B)),
                           'shape', 'trial functions')

    def op_wrong(self, op):
        '''Forms do not get in blocks of other spaces'''
        a = self.get(op['i'])
        form = self.plan['forms'][op['form']]
        if a is None or a[1] != (2 if form.get('trial') else 1):
            return
        B, n = a[0], len(a[2])
        f = self.build(op['form'])
        before = self.cells(B, a[1], n)
        for i in range(n):
            for j in (range(n) if a[1] == 2 else [None]):
                if a[2][i] == form['test'] and (j is None or a[2][j] == form['trial']):
                    continue
                row, k = (B, i) if j is None else (B[i], j)
                try:
                    row[k] = f
                except Exception as e:
                    self.sim.check(not isinstance(e, Violation), 'wrong', str(e))
                else:
                    self.sim.check(False, 'wrong', 'form with other arguments was put in block %d %s' % (i, j))
        self.sim.check(all(x is y for x, y in zip(self.cells(B, a[1], n), before)), 'wrong', 'block form is changed by what is refused')

    def get(self, i):
        return self.blocks[i % len(self.blocks)] if self.blocks else None

    def op_sum(self, op):
        a, b = self.get(op['i']), self.get(op['j'])
        if a is None or a[1] != b[1] or a[2] != b[2]:
            return
        model = {k: a[3].get(k, []) + b[3].get(k, []) for k in list(a[3]) + list(b[3])}
        C = self.attempt(op, lambda: a[0] + b[0])
        self.blocks.append([C, a[1], a[2], model])
        self.shape_ok(len(self.blocks)-1)

    def op_permute(self, op):
        from xii.assembler.block_form import permute
        a = self.get(op['i'])
        order = op['order']
        if a is None or len(order) < 2:
            return
        arg = [self.w.space(*a[2][k]) for k in order] if op['spaces'] and len(set(map(tuple, a[2]))) == len(a[2]) else list(order)
        C = self.attempt(op, lambda: permute(a[0], arg))
        new = {o: i for i, o in enumerate(order)}
        model = {(new[i], None if j is None else new[j]): list(v) for (i, j), v in a[3].items()}
        self.blocks.append([C, a[1], [a[2][k] for k in order], model])
        self.shape_ok(len(self.blocks)-1)

    def op_selfadjoint(self, op):
        from xii.assembler.block_form import make_selfadjoint
        a = self.get(op['i'])
        if a is None or a[1] != 2:
            return
        off = [ij for ij, v in a[3].items() if v and ij[0] != ij[1]]
        up, low = all(i < j for i, j in off), all(i > j for i, j in off)
        before = self.cells(a[0], 2, len(a[2]))
        others = [(b, self.cells(b[0], b[1], len(b[2]))) for b in self.blocks if b is not a]
        try:
            make_selfadjoint(a[0])
            done = True
        except ValueError:
            done = False
        self.sim.check(done == (up or low), 'adjoint', 'triangular form not recognized')
        for b, old in others:
            self.sim.check(all(x is y for x, y in zip(self.cells(b[0], b[1], len(b[2])), old)), 'input-changed', 'other block form')
        if not done:
            self.sim.check(all(x is y for x, y in zip(self.cells(a[0], 2, len(a[2])), before)), 'input-changed', 'form is not triangular')
            return
        for i, j in off:
            a[3][j, i] = [(f, not T) for f, T in a[3][i, j]]
        self.verify_block(a)

    def op_more(self, op):
        '''Some more in a block: other block forms do not notice'''
        a = self.get(op['i'])
        form = self.plan['forms'][op['form']]
        if a is None or a[1] != (2 if form.get('trial') else 1):
            return
        rows = [i for i, s in enumerate(a[2]) if s == form['test']]
        cols = [i for i, s in enumerate(a[2]) if s == form.get('trial')] or [None]
        self.build(op['form'])
        others = [(b, self.cells(b[0], b[1], len(b[2]))) for b in self.blocks if b is not a]
        self.put(a[0], a[1], [op['form'], rows[-1], cols[-1], 'set'])
        a[3].setdefault((rows[-1], cols[-1]), []).append((op['form'], False))
        for b, old in others:
            self.sim.check(all(x is y for x, y in zip(self.cells(b[0], b[1], len(b[2])), old)), 'input-changed', 'other block form')

    def op_check(self, op):
        a = self.get(op['i'])
        if a is not None:
            for fault in op.get('faults') or ():
                self.sim.with_fault(lambda: xii.ii_assemble(a[0]), fault)
            self.verify_block(a)

    def value(self, terms, ti, tj, y, x):
        val, scale = 0., 0.
        for f, T in terms:
            form = self.plan['forms'][f]
            v, s = self.reference(form, x, y) if T else self.reference(form, y, x)
            val, scale = val + v, scale + s
        return val, scale

    def verify_block(self, a):
        sim = self.sim
        B, arity, sides, model = a
        A = xii.ii_assemble(B)
        for i, s in enumerate(sides):
            for j in (range(len(sides)) if arity == 2 else [None]):
                block = A[i] if j is None else A[i][j]
                terms = model.get((i, j), [])
                sim.reach('block', arity, len(sides), len(terms), sum(T for _, T in terms),
                          tuple(sorted(t['k'] for f, _ in terms for t in self.plan['forms'][f]['terms'])))
                if arity == 2 and not terms:
                    sim.check(isinstance(block, (int, float)) and block == 0, 'value', 'empty block is %s' % type(block))
                    continue
                block = xii.ii_convert(block)
                arr = to_array(block, 'block')
                y = self.w.probe(*s, 'y')
                if j is None:
                    val, scale = self.value(terms, s, None, y, None)
                    sim.check(arr.shape == y.shape, 'shape', 'block %d' % i)
                    sim.close(arr @ y, val, scale, 'value', 'block %d of %s' % (i, [f for f, _ in terms]))
                    continue
                x = self.w.probe(*sides[j], 'x')
                sim.check(arr.shape == (len(y), len(x)), 'shape', 'block %d %d' % (i, j))
                val, scale = self.value(terms, s, sides[j], y, x)
                sim.close(y @ arr @ x, val, scale, 'value', 'block %d %d of %s' % (i, j, terms))
                sim.event('block', i, j, sim.num(arr))

    def op_adjoint(self, op):
        from xii.assembler.block_form import form_adjoint
        f = self.build(op['form'])
        form = self.plan['forms'][op['form']]
        g = self.attempt(op, lambda: form_adjoint(f))
        arr = to_array(xii.ii_convert(xii.ii_assemble(g)), 'adjoint')
        y, x = self.w.probe(*form['trial'], 'y'), self.w.probe(*form['test'], 'x')
        self.sim.check(arr.shape == (len(y), len(x)), 'shape', 'adjoint')
        val, scale = self.reference(form, x, y)
        self.sim.close(y @ arr @ x, val, scale, 'value', 'adjoint of %s' % self.describe(form))
        self.sim.event('adjoint', op['form'], self.sim.num(arr))
        self.sim.reach('adjoint', self.describe(form))
        # The form is as it was
        self.verify(op['form'], xii.ii_convert(xii.ii_assemble(f)))
        h = form_adjoint(g)
        if op['sum']:
            arr = to_array(xii.ii_convert(xii.ii_assemble(h)), 'adjoint of adjoint')
            self.sim.close(x @ arr @ y, val, scale, 'value', 'adjoint of adjoint of %s' % self.describe(form))


class BRun(Run):
    forms = BlockForms


def run(plan, sim):
    BRun(plan, sim).run()
