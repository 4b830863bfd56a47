from contract import *
from contracts.c16 import ints


def graph(f, n):
    return [('entries 0/1', FA(lambda i, j: Implies(And(rng(i, n), rng(j, n)), Or(f(i, j) == 0, f(i, j) == 1)), 2, pat=lambda i, j: [f(i, j)])),
            ('zero diagonal', FA(lambda i: Implies(rng(i, n), f(i, i) == 0), pat=lambda i: [f(i, i)])),
            ('symmetric', FA(lambda i, j: Implies(And(rng(i, n), rng(j, n)), f(i, j) == f(j, i)), 2, pat=lambda i, j: [f(i, j)]))]


@contract('C13')
class Complement(Contract):
    key = 'srg.utils.complement'

    def args(self, I):
        n, = ints(I, 'n')
        I.add(n >= 1)
        m = I.fresh_arr((n, n), 'mat')
        m.store.prot = 'the graph'
        return dict(mat=m)

    def pre(self, I, a):
        m = a['mat']
        return graph(lambda i, j: iv(m.get(i, j)), iv(m.shape[0]))

    def post(self, I, a, r):
        m = a['mat']
        n = iv(m.shape[0])
        if not isinstance(r, Arr) or r.ndim != 2:
            raise Unsupported('result of complement')
        return [('shape', And(iv(r.shape[0]) == n, iv(r.shape[1]) == n)),
                ('adjacent exactly when not adjacent before', FA(lambda i, j: Implies(And(rng(i, n), rng(j, n)), iv(r.get(i, j)) ==
                 z3.If(z3.And(i != j, iv(m.get(i, j)) == 0), 1, 0)), 2,
                 pat=lambda i, j: [iv(r.get(i, j))]))]

    def result(self, I, a):
        n = a['mat'].shape[0]
        return I.fresh_arr((n, n), 'compl')


@lemma('C13 parameters of the complement', 'C13')
def complement_parameters(I):
    """drives complement (through its contract) and the real complement_vklu"""
    v, k, l, u = ints(I, 'v', 'k', 'l', 'u')
    I.add(v >= 1)
    m = I.fresh_arr((v, v), 'mat')
    f = lambda i, j: iv(m.get(i, j))
    for n, x in graph(f, v):
        I.add(x)
    I.add(FA(lambda i: Implies(rng(i, v), SUM(lambda t: f(i, t), v) == k)))
    common = lambda h, i, j: SUM(lambda t: h(i, t) * h(j, t), v)
    I.add(FA(lambda i, j: Implies(And(rng(i, v), rng(j, v), i != j), common(f, i, j) == z3.If(f(i, j) == 1, l, u)), 2))
    # complement through its contract
    r = I.call(I.get('srg.utils.complement'), [m], {})
    p = I.call(I.get('srg.utils.complement_vklu'), [v, k, l, u], {})
    v2, k2, l2, u2 = [iv(x) for x in p]
    g = lambda i, j: iv(r.get(i, j))
    spec = lambda i, j: z3.If(z3.And(i != j, f(i, j) == 0), z3.IntVal(1), z3.IntVal(0))
    lin = lambda i, j: 1 - z3.If(i == j, 1, 0) - f(i, j)
    I.prove('v', v2 == v)
    i, j = ints(I, 'i', 'j')
    I.add(rng(i, v), rng(j, v))
    I.points = [i, j]
    I.prove('row sum, step 1', SUM(lambda t: g(i, t), v) == SUM(lambda t: lin(i, t), v), [L.ext(lambda t: g(i, t), lambda t: lin(i, t), v)])
    I.prove('each vertex has k\' neighbours', SUM(lambda t: g(i, t), v) == k2)
    I.add(i != j)
    I.prove('common neighbours, step 1', common(g, i, j) == SUM(lambda t: lin(i, t) * lin(j, t), v),
            [L.ext(lambda t: g(i, t) * g(j, t), lambda t: lin(i, t) * lin(j, t), v)])
    I.prove('common neighbours, step 2', SUM(lambda t: lin(i, t) * lin(j, t), v) == v - 2 - 2 * k + common(f, i, j) + 2 * f(i, j))
    I.prove('common neighbours', common(g, i, j) == z3.If(g(i, j) == 1, l2, u2))
