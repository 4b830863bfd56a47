from contract import *
import prover
from contracts.c16 import ints, valid_params, begins


class QV:
    """the parts of a Question object"""

    def __init__(self, I, q):
        g = lambda n: I.getattr(q, n)
        self.q = q
        self.A, self.b, self.quota, self.bounds = g('A'), g('b'), g('quota'), g('bounds')
        self.ans = g('answer')
        self.v, self.loc, self.len = (I.getattr(self.ans, n) for n in ('_v', '_loc', '_len'))
        for x, d in ((self.A, 2), (self.b, 1), (self.bounds, 1), (self.v, 1), (self.loc, 1)):
            if not isinstance(x, Arr) or x.ndim != d:
                raise Unsupported('representation of a Question')
        self.R, self.C = self.A.shape
        self.N = self.v.shape[0]


def partial_matrix(f, R, v, k, l, u):
    """f(i, j): first R rows of a matrix under construction"""
    return [
        ('2 <= R < v', And(2 <= R, R < v)),
        ('entries 0/1', FA(lambda i, j: Implies(And(rng(i, R), rng(j, v)), Or(f(i, j) == 0, f(i, j) == 1)), 2, pat=lambda i, j: [f(i, j)])),
        ('zero diagonal', FA(lambda i: Implies(rng(i, R), f(i, i) == 0))),
        ('symmetric', FA(lambda i, j: Implies(And(rng(i, R), rng(j, R)), f(i, j) == f(j, i)), 2)),
        ('k ones in each row', FA(lambda i: Implies(rng(i, R), SUM(lambda j: f(i, j), v) == k))),
        ('common ones', FA(lambda i, j: Implies(And(rng(i, R), rng(j, R), i != j), SUM(lambda t: f(i, t) * f(j, t), v)
                                               == z3.If(f(i, j) == 1, l, u)), 2)),
        ('vertices 0 and 1 adjacent', f(0, 1) == 1),
    ]


def legal_row(f, R, v, k, l, u, row):
    return And(SUM(lambda c: row(c), v) == k,
               FA(lambda i: Implies(rng(i, R), SUM(lambda c: f(i, c) * row(c), v) == z3.If(f(i, R) == 1, l, u))))


def row_of(f, R, x):
    return lambda c: z3.If(c < R, f(c, R), z3.If(c == R, z3.IntVal(0), x(c - R - 1)))


@contract('C05')
class FromMatrix(Contract):
    key = 'srg.srg.Question.from_matrix'

    def args(self, I):
        R, v, k, l, u = ints(I, 'R', 'v', 'k', 'l', 'u')
        m = I.fresh_arr((R, v), 'm')
        m.store.prot = 'the matrix'
        I.ghost = dict(params=(v, k, l, u), R=R, mark=Store._n, objmark=PyList._n)
        I.points = [iv(0), iv(1), R]
        I.add(valid_params(v, k, l, u))
        xf = I.fresh_fn('x', Z, Z)
        self.x = lambda j: xf(iv(j))
        I.add(FA(lambda j: Implies(rng(j, v - R - 1), And(0 <= self.x(j), self.x(j) <= 1)), pat=lambda j: [self.x(j)]))
        return dict(m=m)

    def pre(self, I, a):
        v, k, l, u = I.ghost['params']
        R = iv(a['m'].shape[0])
        out = partial_matrix(lambda i, j: iv(a['m'].get(i, j)), R, v, k, l, u)
        return out

    def facts(self, I, a):
        v, k, l, u = I.ghost['params']
        f = lambda i, j: iv(a['m'].get(i, j))
        R = iv(a['m'].shape[0])
        row = row_of(f, R, self.x)
        legal = legal_row(f, R, v, k, l, u, row)
        n = v - R - 1
        return f, R, row, legal, n

    def on_raise(self, I, a, exc, old):
        if exc.cls.name != 'NoSolution':
            I.prove(f'no exception ({exc.cls.name})', False)
            return
        f, R, row, legal, n = self.facts(I, a)
        v, k, l, u = I.ghost['params']
        x = self.x
        fr = lambda i: (lambda c: f(i, c) * row(c))
        rest = lambda i: SUM(lambda j: f(i, R + 1 + j) * x(j), n)
        prove_all(I, 'the unknown part of a row contributes no negative amount', lambda i: Implies(rng(i, R), rest(i) >= 0),
                  lambda i: [L.nonneg(lambda j: f(i, R + 1 + j) * x(j), n)])
        prove_all(I, 'common ones with row i: known part and unknown part',
                  lambda i: Implies(rng(i, R), SUM(fr(i), v) == SUM(fr(i), R + 1) + rest(i)), lambda i: [L.split(fr(i), R + 1, n)])
        known = lambda i: (lambda t: f(i, t) * f(t, R))
        used = z3.simplify(SUM(known(z3.Int('_row')), R)).decl().name()
        if any(used in prover.symbols(c, None) for c in I.assume if is_z(c)):
            prove_all(I, 'known part without the diagonal entry', lambda i: Implies(rng(i, R), SUM(fr(i), R + 1) == SUM(known(i), R)),
                      lambda i: [L.step(fr(i), R), L.ext(fr(i), known(i), R)])
        I.prove('the unknown vector has no negative number of ones', SUM(x, n) >= 0, [L.nonneg(x, n)])
        I.prove('ones of the row: known part and unknown part', SUM(row, v) == SUM(row, R + 1) + SUM(x, n), [L.split(row, R + 1, n)])
        I.prove('NoSolution only if no vector completes a legal row', z3.Not(legal))

    def question(self, I, q, f, R, n, sums):
        """what is said of the question posed; sums: an equation's left-hand side"""
        A, b = (lambda i, j: iv(q.A.get(i, j))), (lambda i: iv(q.b.get(i)))
        same = lambda g, m, c, d: FA(lambda i: Implies(rng(i, m), iv(g(i, c)) == iv(g(i, d))))
        columns = lambda c, d: Implies(And(rng(c, n), rng(d, n)), same(A, R + 1, c, d) == same(f, R, R + 1 + c, R + 1 + d))
        return [
            ('shape of A', And(iv(q.R) == R + 1, iv(q.C) == n)),
            ('shape of b', iv(q.b.shape[0]) == R + 1),
            ('A has entries 0/1', FA(lambda i, j: Implies(And(rng(i, R + 1), rng(j, n)), Or(A(i, j) == 0, A(i, j) == 1)), 2)),
            ('the last row of A is all ones', FA(lambda j: Implies(rng(j, n), A(R, j) == 1), pat=lambda j: [A(R, j)])),
            ('quota is the last element of b', And(iv(q.quota) == b(R), b(R) >= 0)),
            ('bounds are 1', And(iv(q.bounds.shape[0]) == n, FA(lambda j: Implies(rng(j, n), iv(q.bounds.get(j)) == 1)))),
            ('every unknown stands alone', And(iv(q.N) == n, iv(q.loc.shape[0]) == n, iv(q.len) == n,
                                              FA(lambda j: Implies(rng(j, n), And(iv(q.v.get(j)) == -1, iv(q.loc.get(j)) == j))))),
        ], columns

    def on_return(self, I, a, r, old):
        f, R, row, legal, n = self.facts(I, a)
        v, k, l, u = I.ghost['params']
        if not isinstance(r, Obj):
            raise Unsupported('result of from_matrix')
        Q = QV(I, r)
        x = self.x
        A = Q.A.get
        facts, columns = self.question(I, Q, f, R, n, None)
        I.prove(*facts[0])
        I.prove(*facts[1])
        eq = lambda i: SUM(lambda j: iv(A(i, j)) * x(j), n) == iv(Q.b.get(i))
        i = I.fresh('row')
        fr = lambda i: (lambda c: f(i, c) * row(c))
        one = lambda i: Implies(rng(i, R), eq(i) == (SUM(fr(i), v) == z3.If(f(i, R) == 1, l, u)))
        prove_all(I, 'an equation holds exactly when the row has the required number of common ones', one, lambda i: [L.split(fr(i), R + 1, n)])
        I.prove('the last equation holds exactly when the row has k ones', eq(R) == (SUM(row, v) == k), [L.split(row, R + 1, n)])
        I.prove('a vector solves the question exactly when it completes a legal row', FA(lambda i: Implies(rng(i, R + 1), eq(i))) == legal,
                [FA(lambda i: one(i))])
        for t in facts[2:]:
            I.prove(*t)
        self.further(I, r, Q, f, R, n, columns)

    def further(self, I, r, Q, f, R, n, columns):
        pass

    def at_call(self, I, a):
        """the row in mind: I.ghost['row']; afterwards I.ghost['legal iff'](y) is the contract for another vector"""
        m = a['m']
        v, k, l, u = I.ghost['params']
        R = iv(m.shape[0])
        I.prove(f'precondition of {self.key}: shape', And(iv(m.shape[1]) == v, valid_params(v, k, l, u)))
        for n, g in self.pre(I, a):
            I.prove(f'precondition of {self.key}: {n}', g)
        mf = m.snap()
        f = lambda i, j: iv(mf(i, j))
        n = v - R - 1
        legal = lambda x: legal_row(f, R, v, k, l, u, row_of(f, R, x))
        x = I.ghost['row']
        if I.choose(2) == 0:
            I.add(z3.Not(legal(x)))
            raise PyRaise(I.make_user_exc('srg.srg.NoSolution'))
        am, I.assume_mode = I.assume_mode, True
        try:
            A, b, bd = I.fresh_arr((R + 1, n), 'A'), I.fresh_arr((R + 1,), 'b'), I.fresh_arr((n,), 'bd')
            vv, loc = I.fresh_arr((n,), 'v'), I.fresh_arr((n,), 'loc')
            qu = I.fresh('quota')
            I.add(n >= 0, qu >= 0, FA(lambda c: Implies(rng(c, n), iv(bd.get(c)) >= 0)), FA(lambda r: Implies(rng(r, R + 1), And(0 <= iv(b.get(r)), iv(b.get(r)) <= 127)), pat=lambda r: [iv(b.get(r))]))
            ans = I.call(I.get('srg.srg.Answer'), [], {'value': vv, 'location': loc, 'len': n})
            r = I.call(I.get('srg.srg.Question'), [A, b], {'quota': qu, 'bounds': bd, 'ans': ans})
        finally:
            I.assume_mode = am
        facts, columns = self.question(I, QV(I, r), f, R, n, None)
        for t in facts:
            I.add(t[1])
        iff = lambda x: FA(lambda i: Implies(rng(i, R + 1), SUM(lambda j: iv(A.get(i, j)) * x(j), n) == iv(b.get(i)))) == legal(x)
        I.add(iff(x))
        I.ghost['legal iff'], I.ghost['columns'], I.ghost['posed for'] = iff, columns, (f, R)
        return r


@variant('srg.srg.Question.from_matrix (for the search)', 'C01', 'C02', 'C03', 'C07')
class FromMatrixSearch(FromMatrix):
    """what solve_question needs besides"""

    def further(self, I, r, Q, f, R, n, columns):
        c, d = I.fresh('c'), I.fresh('d')
        I.prove('columns are equal exactly when those of the matrix are', columns(c, d))
        prove_all(I, 'right-hand sides up to 127', lambda i: Implies(rng(i, R + 1), iv(Q.b.get(i)) <= 127),
                  lambda i: [L.nonneg(lambda c: f(i, c) * z3.If(c < R, f(c, R), 0), R + 1), L.nonneg(lambda c: z3.If(c < R, f(c, R), 0), R + 1), L.nonneg(lambda c: f(c, R), R)])
        ids = [x.store for x in (Q.b, Q.bounds, Q.v)]
        if len({x.id for x in ids}) < 3 or any(x.prot or x.id <= I.ghost['mark'] for x in ids) or any(o.no <= I.ghost['objmark'] for o in (r, Q.ans)):
            I.prove('what is written later belongs to the question alone', False)

