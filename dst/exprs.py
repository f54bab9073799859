'''Expressions of cbc.block over the store: generation, construction, dense value'''
import numpy as np
import dolfin as df
from block import block_mat, block_vec, block_transpose
from block.block_compose import block_mul, block_add, block_sub
from block.block_base import block_base


class UserOp(block_base):
    '''Matrix free operator of the user'''
    def __init__(self, A):
        self.inner = A

    def matvec(self, b):
        return self.inner*b

    def transpmult(self, b):
        return self.inner.transpmult(b)

    def create_vec(self, dim=1):
        v = df.PETScVector()
        self.inner.init_vector(v, dim)
        return v


class Known(block_base):
    '''Operator which knows its matrix'''
    def __init__(self, kind, A):
        self.A_ = A
        if kind == 'knowsdiag':
            x = df.as_backend_type(A).mat().createVecLeft()
            df.as_backend_type(A).mat().getDiagonal(x)
            self.v = x
        elif kind == 'knowsmat':
            self.matrix = A
        else:
            self.collapse = lambda: A

    def matvec(self, b):
        return self.A_*b if not hasattr(self, 'v') else df.PETScVector(self.v)*b

    def create_vec(self, dim=1):
        v = df.PETScVector()
        self.A_.init_vector(v, dim)
        return v


def gen_expr(rng, mats, r, c, depth, numbers=True, special=False):
    '''mats: (rows, cols) -> names. Tree of dimensions r x c'''
    def leaf():
        if special and r == c and rng.random() < 0.3:
            return ['knowsdiag', rng.choice(mats[r, c])]
        if special and rng.random() < 0.2:
            return [rng.choice(['userop', 'knowsmat', 'knowscollapse']), rng.choice(mats[r, c])]
        if rng.random() < 0.25:
            return ['T', ['m', rng.choice(mats[c, r])]]
        return ['m', rng.choice(mats[r, c])]
    if depth <= 0:
        return leaf()
    sub = lambda r, c: gen_expr(rng, mats, r, c, depth - 1 - (rng.random() < 0.4), numbers, special)
    k = rng.random()
    num = lambda: rng.choice([2, -1, 0.5, 3.25, -2.5, 1, 1, 1e-3])
    if k < 0.22:
        return ['+', sub(r, c), sub(r, c)]
    if k < 0.4:
        return ['-', sub(r, c), sub(r, c)]
    if k < 0.65:
        mid = rng.choice(sorted(set(x for x, _ in mats)))
        return ['*', sub(r, mid), sub(mid, c)]
    if k < 0.75:
        return ['T', sub(c, r)]
    if numbers and k < 0.9:
        return ['k' if rng.random() < 0.6 else 'xk', num(), sub(r, c), rng.choice(['py', 'py', 'np'])]
    if numbers and k < 0.95:
        v = num() if r == c and rng.random() < 0.7 else 0
        e = sub(r, c)
        n = ['n', v, r, c]
        return [rng.choice('+-'), e, n] if rng.random() < 0.6 else [rng.choice('+-'), n, e]
    return leaf()


def build(e, obj, memo=None):
    k = e[0]
    if k == 'm':
        return obj[e[1]]
    if k == 'ref':
        return memo[e[1]]
    if k == 'n':
        return e[1]
    if k.startswith('knows'):
        return Known(k, obj[e[1]])
    if k == 'userop':
        return UserOp(obj[e[1]])
    if k in ('k', 'xk'):
        x = build(e[2], obj, memo)
        n = np.float64(e[1]) if e[3] == 'np' else e[1]
        return block_mul(n, x) if k == 'k' else block_mul(x, n)
    if k == 'T':
        return block_transpose(build(e[1], obj, memo))
    a, b = build(e[1], obj, memo), build(e[2], obj, memo)
    if k == '*':
        return a*b if isinstance(a, df.PETScMatrix) and isinstance(b, (df.PETScMatrix, block_transpose)) else block_mul(a, b)
    return {'+': block_add, '-': block_sub}[k](a, b)


def value(e, ref, memo=None):
    '''-> dense value, bound of the magnitude'''
    k = e[0]
    if k in ('m', 'userop', 'knowsmat', 'knowscollapse'):
        return ref[e[1]], np.abs(ref[e[1]])
    if k == 'ref':
        return value(memo[e[1]], ref, memo)
    if k == 'n':
        a = e[1]*np.eye(e[2], e[3])
        return a, np.abs(a)
    if k == 'knowsdiag':
        d = np.diag(np.diag(ref[e[1]]))
        return d, np.abs(d)
    if k in ('k', 'xk'):
        a, s = value(e[2], ref, memo)
        return e[1]*a, abs(e[1])*s
    if k == 'T':
        a, s = value(e[1], ref, memo)
        return a.T, s.T
    (a, s), (b, t) = value(e[1], ref, memo), value(e[2], ref, memo)
    if k == '*':
        return a @ b, s @ t
    return (a + b if k == '+' else a - b), s + t


def kinds(e):
    out = set()

    def walk(e, up):
        if e[0] in ('m', 'ref', 'userop', 'n') or e[0].startswith('knows'):
            out.add(up + e[0])
        else:
            out.add(up + e[0])
            for x in e[1:]:
                if isinstance(x, list):
                    walk(x, e[0])
    walk(e, '')
    return out
