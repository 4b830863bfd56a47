from contract import *


def ints(I, *names):
    return [I.fresh(n) for n in names]


def valid_params(v, k, l, u):
    return And(v <= 127, 1 <= k, k <= v - 2, 0 <= l, l < k, 0 <= u, u <= k, (v - k - 1) * u == k * (k - l - 1))


def begins(f, v, k, l):
    """facts about the first two rows f(r, c) of a partial matrix"""
    return [
        ('rows 0 and 1 have entries 0/1', FA(lambda j: Implies(rng(j, v), And(*[Or(iv(f(r, j)) == 0, iv(f(r, j)) == 1) for r in (0, 1)])))),
        ('row 0 has k ones', SUM(lambda j: iv(f(0, j)), v) == k),
        ('row 1 has k ones', SUM(lambda j: iv(f(1, j)), v) == k),
        ('rows 0 and 1 have l common ones', SUM(lambda j: iv(f(0, j)) * iv(f(1, j)), v) == l),
        ('zero diagonal, vertices 0 and 1 adjacent', And(f(0, 0) == 0, f(1, 1) == 0, f(0, 1) == 1, f(1, 0) == 1)),
    ]


@contract('C16')
class Seed(Contract):
    key = 'srg.solver._seed'

    def args(self, I):
        v, k, l, u = ints(I, 'v', 'k', 'l', 'u')
        return dict(v=v, k=k, l=l, u=u)

    def pre(self, I, a):
        return [('valid parameters', valid_params(*a.values()))]

    def post(self, I, a, r):
        v, k, l, u = a.values()
        if not isinstance(r, Arr) or r.ndim != 2:
            raise Unsupported('result of _seed')
        f = r.get
        out = [('shape (2, v)', And(iv(r.shape[0]) == 2, iv(r.shape[1]) == v))]
        out += begins(f, v, k, l)
        out += [('ones first in row 0', FA(lambda i, j: Implies(And(1 <= i, i <= j, j < v), f(0, i) >= f(0, j)), 2)),
                ('ones first in row 1 within the groups', FA(lambda i, j: Implies(And(2 <= i, i <= j, j < v, f(0, i) == f(0, j)),
                                                                                 f(1, i) >= f(1, j)), 2))]
        return out

    def result(self, I, a):
        return I.fresh_arr((2, a['v']), 'seed')


@contract('C16')
class Vklu(Contract):
    key = 'srg.srg.vklu'

    def args(self, I):
        R, v, k, l, u = ints(I, 'R', 'v', 'k', 'l', 'u')
        m = I.fresh_arr((R, v), 'm')
        m.store.prot = 'mat'
        self.g = (R, v, k, l, u)
        return dict(mat=m)

    def pre(self, I, a):
        R, v, k, l, u = self.g
        m = a['mat']
        return [('at least two rows', And(R >= 2)), ('valid parameters', valid_params(v, k, l, u))] + begins(m.get, v, k, l)

    def on_return(self, I, a, r, old):
        R, v, k, l, u = self.g
        rv, rk, rl, ru = r
        I.prove('v', iv(rv) == v)
        I.prove('k', iv(rk) == k)
        I.prove('l', iv(rl) == l)
        # FDIV(x, d) with d*u == x
        I.prove('u', iv(ru) == u, [z3.Implies(And(v - k - 1 > 0, iv(ru) > u), (v - k - 1) * iv(ru) >= (v - k - 1) * u + (v - k - 1)),
                                   z3.Implies(And(v - k - 1 > 0, u > iv(ru)), (v - k - 1) * u >= (v - k - 1) * iv(ru) + (v - k - 1))])

    def at_call(self, I, a):
        """the caller names the parameters its matrix begins with in I.ghost['params']"""
        if 'params' not in I.ghost:
            raise Unsupported('vklu called without known parameters')
        v, k, l, u = I.ghost['params']
        m = a['mat']
        I.prove('precondition of vklu: shape', And(iv(m.shape[0]) >= 2, iv(m.shape[1]) == v))
        I.prove('precondition of vklu: valid parameters', valid_params(v, k, l, u))
        for n, f in begins(lambda r, c: iv(m.get(r, c)), v, k, l):
            I.prove('precondition of vklu: ' + n, f)
        return (v, k, l, u)
