"""The enumeration: advance adds a row in every legal way, solve repeats it.

M: an arbitrary matrix that satisfies the identities of the parameters and whose rows put ones first among columns that are equal above.
A partial matrix is *on the way* if it consists of the first rows of M.  advance of one on the way gives exactly one that is on the way,
advance of another one none; so M is produced exactly once if it begins with the start matrix, otherwise never."""
import ast
from contract import *
from contracts.c16 import ints, valid_params
from contracts.c05 import legal_row, row_of
from contracts.c08 import QS, wf_shape, wf_vals, posed, canonical, name_b
from contracts.c04 import one

MAT = z3.Function('MAT', Z, Z, Z, Z)            # entries of a partial matrix known by number
ROWS = z3.Function('ROWS', Z, Z)
HIT = z3.Function('HIT', Z, BOOL)               # it is on the way
NEXT = z3.Function('NEXT', Z, Z)                # number of its continuations
CHILD = z3.Function('CHILD', Z, Z, Z)


def same_above(f, R, c, d):
    return FA(lambda i: Implies(rng(i, R), f(i, c) == f(i, d)))


def ones_first(f, R, v):
    """every row puts ones first among the columns (right of the diagonal) that are equal above"""
    return FA(lambda r, c, d: Implies(And(rng(r, R), r < c, c < d, d < v, same_above(f, r, c, d)), f(r, c) >= f(r, d)), 3)


def identities(f, R, p):
    """the first R rows of a matrix of a strongly regular graph, as far as they go"""
    v, k, l, u = p
    return [
        ('entries 0/1', FA(lambda i, j: Implies(And(rng(i, R), rng(j, v)), Or(f(i, j) == 0, f(i, j) == 1)), 2, pat=lambda i, j: [f(i, j)])),
        ('zero diagonal', FA(lambda i: Implies(rng(i, R), f(i, i) == 0))),
        ('symmetric', FA(lambda i, j: Implies(And(rng(i, R), rng(j, R)), f(i, j) == f(j, i)), 2)),
        ('k ones in each row', FA(lambda i: Implies(rng(i, R), SUM(lambda j: f(i, j), v) == k))),
        ('common ones', FA(lambda i, j: Implies(And(rng(i, R), rng(j, R), i != j), SUM(lambda t: f(i, t) * f(j, t), v) == z3.If(f(i, j) == 1, l, u)), 2)),
        ('vertices 0 and 1 adjacent', f(0, 1) == 1),
    ]


def matrix_of(I, s):
    """-> (rows, columns, entries) of a partial matrix object"""
    if not (isinstance(s, Obj) and s.cls.name == 'SRG'):
        raise Unsupported('not a partial matrix')
    m = I.getattr(s, 'current_matrix')
    if not (isinstance(m, Arr) and m.ndim == 2):
        raise Unsupported('representation of a partial matrix')
    g = m.snap()
    return iv(m.shape[0]), iv(m.shape[1]), (lambda i, j: iv(g(iv(i), iv(j)))), m


def on_the_way(f, R, v, M):
    return FA(lambda i, j: Implies(And(rng(i, R), rng(j, v)), f(i, j) == M(i, j)), 2)


# ------------------------------------------------------------------------------------------------ solve_question, from outside
def search_call(c, I, a):
    """the vectors yielded: 0/1, ones first among equal columns, solutions; the vector in mind (if it is of this kind) is among them once"""
    s = QS(I, a['Q'])
    if 'legal iff' not in I.ghost:
        raise Unsupported('solve_question outside advance')
    I.add(L.enum_all(s.U, s.N))
    for n, f in wf_shape(s) + wf_vals(s)[:-1] + [t for t in posed(s) if not t[0].startswith('equal columns')]:
        I.prove(f'precondition of {c.key}: {n}', f)
    I.ghost['contiguous'](I, s)
    C, T = s.C, I.fresh('T')
    yf = I.fresh_fn('y', Z, Z, Z)
    y = lambda t: (lambda j: yf(iv(t), iv(j)))
    x = I.ghost['row']
    I.prove('the vector in mind is 0/1', FA(lambda j: Implies(rng(j, C), And(0 <= x(j), x(j) <= 1))))
    lin = lambda x: FA(lambda r: Implies(rng(r, s.R), SUM(lambda j: s.A(r, j) * x(j), C) == s.b(r)))
    is_x = I.fresh_fn('isx', Z, BOOL)
    first = lambda t, i, j: Implies(And(rng(t, T), 0 <= i, i < j, j < C, same_columns_of(s, i, j)), yf(t, i) >= yf(t, j))
    lx, cx = lin(x), canonical(s, x)
    count = Implies(cx, SUM(lambda t: one(is_x(iv(t))), T) == one(lx))
    I.add(T >= 0,
          FA(lambda t, j: Implies(And(rng(t, T), rng(j, C)), And(0 <= yf(t, j), yf(t, j) <= 1)), 2, pat=lambda t, j: [yf(t, j)]),
          FA(first, 3),
          FA(lambda t: Implies(rng(t, T), lin(y(t))), pat=lambda t: [is_x(t)]),
          FA(lambda t: is_x(t) == FA(lambda j: Implies(rng(j, C), yf(t, j) == x(j))), pat=lambda t: [is_x(t)]),
          count)
    # a consumer may change neither the question nor expect it unchanged
    for st in ('b', 'bounds', 'v'):
        s.stores[st].prot = None
    I.ghost['found'] = dict(T=T, y=yf, s=s, lin=lin, isx=is_x, first=first, count=count, lx=lx, cx=cx)
    return Seq(T, lambda t: Arr((C,), lambda j: yf(iv(t), iv(j))))


def same_columns_of(s, c, d):
    return FA(lambda r: Implies(rng(r, s.R), s.A(r, c) == s.A(r, d)))


# ------------------------------------------------------------------------------------------------ advance
@contract('C01', 'C02', 'C03', 'C07')
class Advance(Contract):
    key = 'srg.solver.advance'

    def args(self, I):
        R, v, k, l, u = ints(I, 'R', 'v', 'k', 'l', 'u')
        p = (v, k, l, u)
        mf, Mf = I.fresh_fn('m', Z, Z, Z), I.fresh_fn('M', Z, Z, Z)
        f, M = (lambda i, j: mf(iv(i), iv(j))), (lambda i, j: Mf(iv(i), iv(j)))
        m = Arr((R, v), f)
        m.store.prot = 'the partial matrix'
        s = Obj(I.get('srg.srg.SRG'))
        am, I.assume_mode = I.assume_mode, True
        s = I.call(I.get('srg.srg.SRG'), [m], {})
        I.assume_mode = am
        s.prot = 'the partial matrix'
        I.add(2 <= R, R < v, valid_params(*p))
        self.idf = dict(identities(f, R, p))
        for n, g in list(self.idf.items()) + identities(M, v, p):
            I.add(g)
        I.add(ones_first(f, R, v), ones_first(M, v, v))
        self.p, self.f, self.M, self.R = p, f, M, R
        I.points = [iv(0), iv(1), R]
        I.ghost = dict(params=p, row=lambda j: M(R, R + 1 + iv(j)), contiguous=self.contiguous, R=R, out=PyList([]))
        return dict(s=s)

    def on_yield(self, I, a, v, old):
        I.npm.list_append(I, I.ghost['out'], v)

    def contiguous(self, I, s):
        """columns between equal columns are equal to them"""
        f, R, (v, k, l, u) = self.f, self.R, self.p
        fr, Rr = I.ghost['posed for']
        columns = I.ghost['columns']
        c, d, e = I.fresh('c'), I.fresh('d'), I.fresh('e')
        a, b, g = R + 1 + c, R + 1 + d, R + 1 + e
        here = And(0 <= c, c < d, d < e, e < s.C, same_above(f, R, a, g))
        Pf = I.fresh_fn('P', Z, BOOL)
        P = lambda n: Pf(iv(n))
        I.add(FA(lambda n: P(n) == FA(lambda i: Implies(rng(i, n), f(i, a) == f(i, b))), pat=lambda n: [P(n)]))
        r = I.fresh('r')
        first = lambda r, c, d: Implies(And(rng(r, R), r < c, c < d, d < v, same_above(f, r, c, d)), f(r, c) >= f(r, d))
        I.prove('no zero column', FA(lambda c: Implies(rng(c, s.C), s.A(s.R - 1, c) == 1)))
        I.prove('above, up to a row', Implies(And(here, rng(r, R), P(r)), And(same_above(f, r, a, b), same_above(f, r, b, g))))
        I.derive('in the next row', Implies(And(here, rng(r, R), P(r)), f(r, a) == f(r, b)), [
            Implies(And(here, rng(r, R), P(r)), And(same_above(f, r, a, b), same_above(f, r, b, g))), s.C == v - R - 1],
            [first(r, a, b), first(r, b, g), Implies(And(same_above(f, R, a, g), rng(r, R)), f(r, a) == f(r, g))])
        I.prove('then up to the next row', Implies(And(here, rng(r, R), P(r)), P(r + 1)))
        step = FA(lambda r: Implies(And(here, rng(r, R), P(r)), P(r + 1)), pat=lambda r: [P(r)])
        I.add(step)
        I.prove('up to row 0', P(0))
        I.derive('equal above, row by row', Implies(here, P(R)), [step, P(0), 2 <= R], [L.induct(P, R)])
        eqab = Implies(here, same_above(f, R, a, b))
        I.prove('equal above', eqab)
        ce, cd = columns(c, e), columns(c, d)       # (instances of the contract of from_matrix)
        I.add(ce, cd)
        I.prove('width of the question', s.C == v - R - 1)
        I.derive('precondition of solve_question: equal columns stand next to each other',
                 Implies(And(0 <= c, c < d, d < e, e < s.C, same_columns_of(s, c, e)), same_columns_of(s, c, d)),
                 [ce, cd, s.C == v - R - 1, eqab])

    def on_return(self, I, a, r, old):
        p, f, M, R = self.p, self.f, self.M, self.R
        v, k, l, u = p
        if r is None and I.gen_is(I.get(self.key)):
            r = I.ghost['out']
        if not isinstance(r, (PyList, Seq, tuple)):
            raise Unsupported('result of advance')
        sq = I.to_seq(r)
        while 'perm' in sq.tag:                 # the order does not matter
            sq = sq.tag['perm'][2]
        T = iv(sq.n)
        way = name_b(I, on_the_way(f, R, v, M))
        legal = name_b(I, legal_row(f, R, v, k, l, u, row_of(f, R, I.ghost['row'])))
        x = I.ghost['row']
        row = row_of(f, R, x)
        # the row of M after rows of M is legal
        j = I.fresh('j')
        same_row = FA(lambda j: Implies(And(way, rng(j, v)), row(j) == M(R, j)))
        I.prove('the row of M continues the rows of M', Implies(And(way, rng(j, v)), row(j) == M(R, j)))
        I.add(same_row)
        kk = Implies(way, SUM(row, v) == k)
        I.prove('it has k ones', kk, [L.ext(row, lambda j: M(R, j), v)])
        common = lambda i: Implies(And(way, rng(i, R)), SUM(lambda c: f(i, c) * row(c), v) == z3.If(f(i, R) == 1, l, u))
        i, c = I.fresh('i'), I.fresh('c')
        term = lambda i, c: Implies(And(way, rng(i, R), rng(c, v)), And(f(i, c) == M(i, c), row(c) == M(R, c)))
        I.prove('rows on the way', term(i, c))
        I.derive('common ones in M', Implies(rng(i, R), SUM(lambda t: M(i, t) * M(R, t), v) == z3.If(M(i, R) == 1, l, u)), [2 <= R, R < v],
                 [Implies(And(rng(i, v), rng(R, v), i != R), SUM(lambda t: M(i, t) * M(R, t), v) == z3.If(M(i, R) == 1, l, u))])
        I.derive('it has the required common ones', common(i), [Implies(rng(i, R), SUM(lambda t: M(i, t) * M(R, t), v) == z3.If(M(i, R) == 1, l, u)), R < v, 2 <= R],
                 [FA(lambda c: term(i, c), pat=lambda c: [f(i, c)]), term(i, R), L.ext(lambda c: f(i, c) * row(c), lambda c: M(i, c) * M(R, c), v)])
        com = FA(common)
        I.add(com)
        I.derive('it is legal', Implies(way, legal), [kk, com], [legal == legal_row(f, R, v, k, l, u, row)])
        if conc(sq.n) == 0:
            I.prove('no continuation only if none is on the way', z3.Not(way))
            return
        F = I.ghost.get('found')
        if F is None:
            raise Unsupported('rows that are not from solve_question')
        t = I.fresh('t')
        rows, cols, g0, m = matrix_of(I, sq.at(t))
        gU = I.fresh_fn('g', Z, Z, Z)
        g = lambda i, j: gU(iv(i), iv(j))
        gt = lambda t: matrix_of(I, sq.at(t))[2]
        q, y, isx, lin, n = F['s'], F['y'], F['isx'], F['lin'], v - R - 1
        w = lambda j: g(R, R + 1 + j)
        I.prove('number of continuations', T == F['T'])
        hit = lambda t: on_the_way(gt(t), R + 1, v, M)
        h = I.fresh_fn('hit', Z, BOOL)
        I.add(FA(lambda t: h(t) == hit(t), pat=lambda t: [h(t)]))
        c, d = I.fresh('c'), I.fresh('d')
        aM = lambda c, d: Implies(And(way, rng(c, n), rng(d, n), same_columns_of(q, c, d)), same_above(M, R, R + 1 + c, R + 1 + d))
        i, A, B = I.fresh('i'), R + 1 + c, R + 1 + d
        at = lambda j: Implies(And(way, rng(i, R), rng(j, v)), f(i, j) == M(i, j))
        up = Implies(And(rng(c, n), rng(d, n), same_columns_of(q, c, d)), same_above(f, R, A, B))
        cd = I.ghost['columns'](c, d)
        I.add(cd)
        I.derive('columns in the question and above', up, [cd])
        I.prove('rows on the way at the columns', And(at(A), at(B)))
        I.derive('columns equal in the question are equal in M, row by row', Implies(And(way, rng(c, n), rng(d, n), same_columns_of(q, c, d), rng(i, R)), M(i, A) == M(i, B)), [
            up, And(at(A), at(B)), 2 <= R],
            [Implies(And(same_above(f, R, A, B), rng(i, R)), f(i, A) == f(i, B))])
        I.add(aM(c, d))
        I.prove('the row of M has ones first', Implies(And(way, 0 <= c, c < d, d < n, same_columns_of(q, c, d)), x(c) >= x(d)), [
            Implies(And(R < R + 1 + c, c < d, R + 1 + d < v, same_above(M, R, R + 1 + c, R + 1 + d)), M(R, R + 1 + c) >= M(R, R + 1 + d))])
        wc, wl = Implies(way, F['cx']), Implies(way, F['lx'])
        I.add(wc)
        I.prove('the row of M solves the question', wl)
        if I.choose(2) == 0:                    # all of them at once; the other case is about an arbitrary one
            eqh = FA(lambda t: Implies(rng(t, T), h(t) == And(way, isx(t))), pat=lambda t: [h(t)])
            I.add(eqh)
            once = Implies(way, SUM(lambda t: one(isx(iv(t))), T) == 1)
            I.derive('the row of M is found once if the rows are on the way', once, [F['count'], wc, wl])
            I.derive('exactly one continuation is on the way if the rows are, otherwise none', SUM(lambda t: one(h(iv(t))), T) == one(way), [eqh, once],
                    [L.ext(lambda t: one(h(iv(t))), lambda t: one(isx(iv(t))), T), L.ext(lambda t: one(h(iv(t))), lambda t: z3.IntVal(0), T), L.closed(lambda t: z3.IntVal(0), lambda t: z3.IntVal(0), T)])
            return
        tin = rng(t, T)
        I.add(tin)
        I.prove('one row more', And(rows == R + 1, cols == v))
        gdef = FA(lambda i, j: g(i, j) == g0(i, j), 2, pat=lambda i, j: [g(i, j)])
        I.add(gdef)
        before = prove_all(I, 'the rows before stay', lambda i, j: Implies(And(rng(i, R), rng(j, v)), g(i, j) == f(i, j)), n=2, pat=lambda i, j: [g(i, j)])
        left = prove_all(I, 'the new row, left part', lambda j: Implies(rng(j, R + 1), g(R, j) == z3.If(j < R, f(j, R), 0)), pat=lambda j: [g(R, j)])
        right = prove_all(I, 'the new row, right part', lambda j: Implies(And(R < j, j < v), g(R, j) == y(t, j - R - 1)), pat=lambda j: [g(R, j)])
        # the new row is legal
        yt = lambda j: y(t, j)
        I.add(I.ghost['legal iff'](yt))
        rowy = row_of(f, R, yt)
        I.prove('the vector solves the question', lin(yt), [Implies(rng(t, T), lin(yt))])
        leg = legal_row(f, R, v, k, l, u, rowy)
        I.prove('the vector completes a legal row', leg)
        new = prove_all(I, 'the new row', lambda j: Implies(rng(j, v), g(R, j) == rowy(j)), pat=lambda j: [g(R, j)])
        # from here on everything follows from what the rows are
        idf, D, here = self.idf, I.derive, [2 <= R, R < v]
        i, i2, j = I.fresh('i'), I.fresh('i'), I.fresh('j')
        y01 = Implies(And(rng(t, T), rng(j - R - 1, n)), And(0 <= y(t, j - R - 1), y(t, j - R - 1) <= 1))
        e01 = lambda i, j: Implies(And(rng(i, R), rng(j, v)), Or(f(i, j) == 0, f(i, j) == 1))
        sym = lambda i, j: Implies(And(rng(i, R), rng(j, R)), f(i, j) == f(j, i))
        dia = lambda i: Implies(rng(i, R), f(i, i) == 0)
        bef = lambda i, j: Implies(And(rng(i, R), rng(j, v)), g(i, j) == f(i, j))
        nw = lambda j: Implies(rng(j, v), g(R, j) == rowy(j))
        D('entries 0/1', Implies(And(rng(i, R + 1), rng(j, v)), Or(g(i, j) == 0, g(i, j) == 1)), here + [tin], [bef(i, j), nw(j), e01(i, j), e01(j, R), y01, n == v - R - 1])
        D('zero diagonal', Implies(rng(i, R + 1), g(i, i) == 0), here, [bef(i, i), dia(i), nw(R)])
        D('symmetric', Implies(And(rng(i, R + 1), rng(j, R + 1)), g(i, j) == g(j, i)), here, [bef(i, j), bef(j, i), sym(i, j), nw(i), nw(j)])
        kr = SUM(rowy, v) == k
        I.derive('k ones in the row', kr, [leg])
        D('k ones in the new row', SUM(lambda j: g(R, j), v) == k, [new, kr], [L.ext(lambda j: g(R, j), rowy, v)])
        D('k ones in a row before', Implies(rng(i, R), SUM(lambda j: g(i, j), v) == k), [before, idf['k ones in each row']], [L.ext(lambda j: g(i, j), lambda j: f(i, j), v)])
        fc = Implies(And(rng(i, R), rng(i2, R), i != i2), SUM(lambda c: f(i, c) * f(i2, c), v) == z3.If(f(i, i2) == 1, l, u))
        D('common ones of rows before', Implies(And(rng(i, R), rng(i2, R), i != i2), SUM(lambda c: g(i, c) * g(i2, c), v) == z3.If(g(i, i2) == 1, l, u)),
          [before] + here, [fc, bef(i, i2), L.ext(lambda c: g(i, c) * g(i2, c), lambda c: f(i, c) * f(i2, c), v)])
        fr = Implies(rng(i, R), SUM(lambda c: f(i, c) * rowy(c), v) == z3.If(f(i, R) == 1, l, u))
        D('common ones with the row', fr, [leg])
        D('common ones with the new row', Implies(rng(i, R), SUM(lambda c: g(i, c) * g(R, c), v) == z3.If(g(i, R) == 1, l, u)),
          [before, new, fr] + here, [bef(i, R), L.ext(lambda c: g(i, c) * g(R, c), lambda c: f(i, c) * rowy(c), v)])
        D('common ones of the new row', Implies(rng(i, R), SUM(lambda c: g(R, c) * g(i, c), v) == z3.If(g(R, i) == 1, l, u)),
          [before, new, fr] + here, [bef(i, R), nw(i), L.ext(lambda c: g(R, c) * g(i, c), lambda c: f(i, c) * rowy(c), v)])
        D('vertices 0 and 1 adjacent', g(0, 1) == 1, here + [f(0, 1) == 1], [bef(z3.IntVal(0), z3.IntVal(1))])
        # ones first
        r, c, d = I.fresh('r'), I.fresh('c'), I.fresh('d')
        of = lambda f, r, c, d: Implies(And(rng(r, R), r < c, c < d, d < v, same_above(f, r, c, d)), f(r, c) >= f(r, d))
        eq = Implies(And(0 <= r, r <= R, rng(c, v), rng(d, v), same_above(g, r, c, d)), same_above(f, r, c, d))
        D('equal above, row by row', Implies(And(0 <= r, r <= R, rng(c, v), rng(d, v), same_above(g, r, c, d), rng(i, r)), f(i, c) == f(i, d)), here,
          [bef(i, c), bef(i, d), Implies(And(same_above(g, r, c, d), rng(i, r)), g(i, c) == g(i, d))])
        I.add(eq)
        D('ones first in the rows before', of(g, r, c, d), [eq] + here, [of(f, r, c, d), bef(r, c), bef(r, d)])
        cc, dd = I.fresh('c'), I.fresh('d')
        c, d = R + 1 + cc, R + 1 + dd
        D('equal above the new row, row by row', Implies(And(R < c, c < d, d < v, same_above(g, R, c, d), rng(i, R)), f(i, c) == f(i, d)), here,
          [bef(i, c), bef(i, d), Implies(And(same_above(g, R, c, d), rng(i, R)), g(i, c) == g(i, d))])
        up = Implies(And(R < c, c < d, d < v, same_above(g, R, c, d)), same_above(f, R, c, d))
        I.add(up)
        eqq = Implies(And(R < c, c < d, d < v, same_above(f, R, c, d)), same_columns_of(q, cc, dd))
        ccdd = I.ghost['columns'](cc, dd)
        I.add(ccdd)
        D('equal columns of the question', eqq, [ccdd, 2 <= R])
        D('ones first in the new row', Implies(And(R < c, c < d, d < v, same_above(g, R, c, d)), g(R, c) >= g(R, d)), [up, eqq, right, q.C == v - R - 1, tin] + here, [F['first'](t, cc, dd)])
        # on the way
        D('on the way: entries', Implies(And(h(t), rng(i, R + 1), rng(j, v)), g(i, j) == M(i, j)), [gdef], [h(t) == hit(t)])
        D('a continuation on the way has rows on the way', Implies(And(h(t), rng(i, R), rng(j, v)), f(i, j) == M(i, j)), [
            Implies(And(h(t), rng(i, R + 1), rng(j, v)), g(i, j) == M(i, j))], [bef(i, j)])
        onw = on_the_way(f, R, v, M)
        I.add(Implies(h(t), onw))
        D('a continuation on the way continues rows on the way', Implies(h(t), way), [], [Implies(h(t), onw), way == onw])
        hM = lambda i, j: Implies(And(h(t), rng(i, R + 1), rng(j, v)), g(i, j) == M(i, j))
        hall = FA(hM, 2, pat=lambda i, j: [g(i, j)])
        I.add(hall)                             # (shown for arbitrary entries above)
        vec = FA(lambda j: Implies(rng(j, n), y(t, j) == x(j)))
        D('its row is the one of M, entry by entry', Implies(And(h(t), rng(j, n)), y(t, j) == x(j)), here, [
            Implies(And(R < R + 1 + j, R + 1 + j < v), g(R, R + 1 + j) == y(t, j)), hM(R, R + 1 + j)])
        D('its row is the one of M', Implies(h(t), isx(t)), [], [Implies(h(t), vec), isx(t) == vec])
        xi = Implies(And(isx(t), rng(j - R - 1, n)), y(t, j - R - 1) == x(j - R - 1))
        D('entries of the vector', xi, [], [isx(t) == vec])
        wm = lambda i, j: Implies(And(way, rng(i, R), rng(j, v)), f(i, j) == M(i, j))
        D('rows on the way, entries', And(wm(i, j), wm(j, R)), here, [way == onw])
        D('rows of a continuation with the row of M', Implies(And(way, isx(t), rng(i, R), rng(j, v)), g(i, j) == M(i, j)), [And(wm(i, j), wm(j, R))], [bef(i, j)])
        D('new row of a continuation with the row of M', Implies(And(way, isx(t), rng(j, v)), g(R, j) == M(R, j)), here + [xi, And(wm(i, j), wm(j, R))], [
            nw(j), n == v - R - 1, Implies(And(rng(j, v), rng(R, v)), M(j, R) == M(R, j)), Implies(rng(R, v), M(R, R) == 0)])
        D('all rows of a continuation with the row of M', Implies(And(way, isx(t), rng(i, R + 1), rng(j, v)), g0(i, j) == M(i, j)), [
            Implies(And(way, isx(t), rng(i, R), rng(j, v)), g(i, j) == M(i, j)), Implies(And(way, isx(t), rng(j, v)), g(R, j) == M(R, j))], [g(i, j) == g0(i, j)])
        ht = hit(t)
        I.add(Implies(And(way, isx(t)), ht))
        D('continued with the row of M it is on the way', Implies(And(way, isx(t)), h(t)), [Implies(And(way, isx(t)), ht)], [h(t) == ht])
        D('on the way: as the vector in mind', h(t) == And(way, isx(t)), [Implies(h(t), way), Implies(h(t), isx(t)), Implies(And(way, isx(t)), h(t))])

    def at_call(self, I, a):
        """what was shown above, for the partial matrix by its number (the same on every call: advance is a function of the matrix)"""
        h = handle_of(I, a['s'])
        v = I.ghost['params'][0]
        I.prove(f'precondition of {self.key}: a partial matrix that is not complete', And(INV(h), 2 <= ROWS(h), ROWS(h) < v))
        r = Seq(NEXT(h), lambda t: Partial(CHILD(h, iv(t)), I))
        return r if I.gen_is(I.get(self.key)) else PyList(seq=r)


# ------------------------------------------------------------------------------------------------ solve
INV = z3.Function('INV', Z, BOOL)               # identities and ones first, for the rows there are


class Partial(Val):
    """a partial matrix known by number"""

    def __init__(self, h, I):
        self.h, self.I = h, I

    def val_map(self, f):
        return Partial(iv(f(iv(self.h))), self.I)

    def val_ite(self, I, c, other):
        if not isinstance(other, Partial):
            raise Unsupported('conditional partial matrix')
        return Partial(z3.If(c, iv(self.h), iv(other.h)), I)

    def open(self, I):
        am, I.assume_mode = I.assume_mode, True
        h = iv(self.h)
        m = Arr((ROWS(h), I.ghost['params'][0]), lambda i, j: MAT(h, iv(i), iv(j)))
        m.store.prot = 'a partial matrix'
        try:
            s = I.call(I.get('srg.srg.SRG'), [m], {})
        finally:
            I.assume_mode = am
        s.prot = 'a partial matrix'
        return s


def handle_of(I, x):
    """the number of a partial matrix (or of its matrix of entries)"""
    if isinstance(x, Partial):
        return iv(x.h)
    if isinstance(x, Obj):
        rows, cols, f, m = matrix_of(I, x)
    elif isinstance(x, Arr) and x.ndim == 2:
        g = x.snap()
        rows, cols, f = iv(x.shape[0]), iv(x.shape[1]), (lambda i, j: iv(g(iv(i), iv(j))))
    else:
        raise Unsupported('not a partial matrix')
    i, j = z3.Ints('_i _j')
    t = z3.simplify(f(i, j))
    if not (z3.is_app(t) and t.decl().eq(MAT) and t.arg(1).eq(i) and t.arg(2).eq(j)):
        raise Unsupported('a partial matrix that is not a known one')
    h = t.arg(0)
    if not (z3.simplify(rows).eq(z3.simplify(ROWS(h))) and z3.simplify(cols).eq(z3.simplify(iv(I.ghost['params'][0])))):
        raise Unsupported('a partial matrix that is not a known one')
    return h


def legal(I, h):
    return And(INV(h), 2 <= ROWS(h), ROWS(h) <= I.ghost['params'][0])


def sequence(I, l):
    return I.to_seq(l) if isinstance(l, PyList) else l


def count(I, l):
    """partial matrices of a list that are on the way"""
    sq = sequence(I, l)
    c = conc(sq.n)
    if 'concat' in sq.tag:
        return sum((count(I, x) for x in sq.tag['concat']), z3.IntVal(0))
    if c is not None and c <= 32:
        return sum((one(HIT(handle_of(I, sq.at(i)))) for i in range(c)), z3.IntVal(0))
    if 'perm' in sq.tag:
        return count(I, sq.tag['perm'][2])
    if 'removed' in sq.tag:
        src, k = sq.tag['removed']
        return count(I, src) - one(HIT(handle_of(I, src.at(k))))
    if 'flat' in sq.tag:
        outer = sq.tag['flat'][0]
        inner = lambda g: count_plain(I, sequence(I, outer.at(g)))
        r = SUM(lambda g: inner(iv(g)), outer.n)
        g = z3.Int('_g')
        e = sequence(I, outer.at(g)).at(z3.Int('_t'))
        h = handle_of(I, e)
        if h.decl().eq(CHILD):                  # the continuations of one
            parent = lambda g: z3.substitute(h.arg(0), (z3.Int('_g'), iv(g)))
            I.add(L.ext(lambda g: inner(iv(g)), lambda g: one(HIT(parent(g))), outer.n))
        return r
    if 'filtered' in sq.tag:
        masked(I, sq)
    return count_plain(I, sq)


def count_plain(I, sq):
    if any(t in sq.tag for t in ('perm', 'removed', 'flat', 'concat')):
        raise Unsupported('lists within lists')
    return SUM(lambda j: one(HIT(handle_of(I, sq.at(iv(j))))), sq.n)


def masked(I, sq):
    """-> (mask, length, term per index before filtering); the sum over the filtered list is the sum over those that pass"""
    E, n, src = sq.tag['filtered']
    J = z3.Int('_J')
    t = one(HIT(handle_of(I, sq.at(J))))
    a = iv(E.at(J))
    f = lambda i: z3.substitute(t, (a, iv(i)))
    probe = f(z3.Int('_probe'))
    if 'J' in str(z3.simplify(probe)) and any(x.eq(J) for x in consts(probe)):
        raise Unsupported('a filtered list whose entries do not come from the list that is filtered')
    I.add(L.enum_sum(f, E, n))
    return E, iv(n), f


def consts(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if z3.is_const(x):
            out.append(x)
        st += x.children()
    return out


def split_facts(I):
    """a list is the entries that pass a test and those that do not"""
    ms = []
    for sq in I.filtered:
        try:
            ms.append(masked(I, sq))
        except Unsupported:
            continue
    out = []
    for E, n, f in ms:
        for E2, n2, f2 in ms:
            if E2 is E or not z3.simplify(n).eq(z3.simplify(n2)) or not z3.simplify(f(z3.Int('_q'))).eq(z3.simplify(f2(z3.Int('_q')))):
                continue
            out.append(L.add2(lambda i: z3.If(zb(E.m(i)), f(i), 0), lambda i: z3.If(zb(E2.m(i)), f(i), 0), f, n))
    return out


class SolveLoop(LoopSpec):
    """partial matrices that are on the way + times M was yielded = 1 if the start is on the way, otherwise 0"""
    strict = True

    def accepts(self, st):
        return isinstance(st, ast.While)

    def start(self, I, env, st, sq):
        ls = [x.id for x in ast.walk(st.test) if isinstance(x, ast.Name) and isinstance(env.vars.get(x.id), PyList)]
        if len(set(ls)) != 1:
            raise Unsupported('the enumeration is not a loop over one list')
        self.name = ls[0]
        l = env.vars[self.name]
        if any(x is l for n, x in env.vars.items() if n != self.name):
            raise Unsupported('two names for the list of partial matrices')
        self.names = (self.name,)
        self.lists = []
        return {}

    def frame(self, I, env, s):
        self.lists = [I.ghost['hits']]
        return self.lists

    def inv(self, I, env, i, s):
        l = env.vars[self.name]
        if not isinstance(l, PyList):
            raise Unsupported('the list of partial matrices')
        sq = sequence(I, l)
        c = count(I, l)
        return [('the partial matrices are legal', self.every(I, sq)),
                ('M is in progress or was yielded as often as it should', c + iv(I.ghost['hits'].attrs['hits']) == one(HIT(I.ghost['h0'])), split_facts(I))]

    def every(self, I, sq):
        if 'concat' in sq.tag:
            return And(*[self.every(I, x) for x in sq.tag['concat']])
        if 'flat' in sq.tag:
            outer = sq.tag['flat'][0]
            return FA(lambda g: Implies(rng(g, outer.n), self.every(I, sequence(I, outer.at(g)))))
        c = conc(sq.n)
        if c is not None and c <= 32:
            return And(*[legal(I, handle_of(I, sq.at(i))) for i in range(c)])
        return FA(lambda j: Implies(rng(j, sq.n), legal(I, handle_of(I, sq.at(j)))))

    def havoc(self, I, env, s):
        T, h = I.fresh('T'), I.fresh_fn('open', Z, Z)
        I.add(T >= 0)
        l = PyList(seq=Seq(T, lambda j: Partial(h(iv(j)), I)))
        env.vars[self.name] = l
        self.lists.append(l)
        I.setattr(I.ghost['hits'], 'hits', I.fresh('hits'))


@contract('C01', 'C02', 'C03', 'C07')
class Solve(Contract):
    key = 'srg.solver.solve'

    def loops(self):
        return [SolveLoop()]

    def args(self, I):
        v, k, l, u, h0 = ints(I, 'v', 'k', 'l', 'u', 'start')
        p = (v, k, l, u)
        hits = Obj(UserClass('ghost', {}, [], None))
        hits.attrs['hits'] = z3.IntVal(0)
        I.ghost = dict(params=p, h0=h0, hits=hits)
        on = lambda h: one(HIT(h))
        I.add(valid_params(*p), INV(h0), ROWS(h0) == 2)
        # what advance was shown to do
        I.add(FA(lambda h: Implies(And(INV(h), 2 <= ROWS(h), ROWS(h) < v), And(
            NEXT(h) >= 0, SUM(lambda t: one(HIT(CHILD(h, iv(t)))), NEXT(h)) == one(HIT(h)),
            FA(lambda t: Implies(rng(t, NEXT(h)), And(INV(CHILD(h, t)), ROWS(CHILD(h, t)) == ROWS(h) + 1)), pat=lambda t: [CHILD(h, t)]))), pat=lambda h: [NEXT(h)]))
        return dict(srg=Partial(h0, I).open(I))

    def on_yield(self, I, a, m, old):
        h = handle_of(I, m)
        v = I.ghost['params'][0]
        I.prove('a matrix yielded has all rows', And(INV(h), ROWS(h) == v))
        f = lambda i, j: MAT(h, i, j)
        I.setattr(I.ghost['hits'], 'hits', norm(iv(I.ghost['hits'].attrs['hits']) + one(HIT(h))))

    def on_return(self, I, a, r, old):
        I.prove('M is yielded exactly once if it begins with the start matrix, otherwise never', iv(I.ghost['hits'].attrs['hits']) == one(HIT(I.ghost['h0'])), split_facts(I))


# ------------------------------------------------------------------------------------------------ from the start matrix to the properties
def rows_determined(I, f, p, whose):
    """rows 0 and 1 with the right sums, ones first within the groups: their entries"""
    v, k, l, u = p
    j = I.fresh('j')
    f0, f1 = (lambda t: f(0, t)), (lambda t: f(1, t))
    row0 = lambda t: z3.If(And(1 <= t, t <= k), z3.IntVal(1), z3.IntVal(0))
    g = lambda i: f0(1 + i)
    I.prove(f'{whose}: row 0 without its diagonal', SUM(g, v - 1) == k, [L.split(f0, 1, v - 1), L.step(f0, z3.IntVal(0))])
    I.prove(f'{whose}: row 0', Implies(rng(j, v), f0(j) == row0(j)), [L.downto(g, v - 1, j - 1), Or(f0(j) == 0, f0(j) == 1, Not(rng(j, v)))])
    e0 = lambda t: Implies(rng(t, v), f0(t) == row0(t))
    r0 = FA(e0, pat=lambda t: [f0(t)])
    I.add(r0)
    a, b = (lambda i: f1(2 + i)), (lambda i: f1(k + 1 + i))
    pr = lambda t: f0(t) * f1(t)
    I.prove(f'{whose}: row 1 in parts', SUM(f1, v) == 1 + SUM(a, k - 1) + SUM(b, v - k - 1), [
        L.split(f1, 2, v - 2), L.split(a, k - 1, v - k - 1), L.ext(lambda i: a(k - 1 + i), b, v - k - 1), L.step(f1, z3.IntVal(1)), L.step(f1, z3.IntVal(0))])
    both = lambda t: Implies(rng(t, v), pr(t) == z3.If(And(1 <= t, t <= k), f1(t), 0))
    I.derive(f'{whose}: common ones, entry by entry', both(j), [r0], [e0(j), f0(j) * f1(j) == z3.If(f0(j) == 0, 0, z3.If(f0(j) == 1, f1(j), f0(j) * f1(j)))])
    Pf = I.fresh_fn('both', Z, Z)
    P = lambda t: Pf(iv(t))
    pdef = FA(lambda t: P(t) == pr(t), pat=lambda t: [P(t)])
    I.add(pdef)
    bothP = FA(lambda t: Implies(rng(t, v), P(t) == z3.If(And(1 <= t, t <= k), f1(t), 0)), pat=lambda t: [P(t)])
    I.derive(f'{whose}: common ones, entry by entry, by name', Implies(rng(j, v), P(j) == z3.If(And(1 <= j, j <= k), f1(j), 0)), [pdef, both(j)])
    I.add(bothP)
    two = lambda i: P(2 + i)
    zero = lambda i: z3.IntVal(0)
    inP = SUM(P, v) == SUM(a, k - 1)
    I.derive(f'{whose}: common ones in parts', inP, [bothP, valid_params(*p), f1(1) == 0], [
        L.split(P, 2, v - 2), L.split(two, k - 1, v - k - 1), L.ext(two, a, k - 1), L.ext(lambda i: two(k - 1 + i), zero, v - k - 1), L.closed(zero, zero, v - k - 1),
        L.step(P, z3.IntVal(1)), L.step(P, z3.IntVal(0))])
    I.derive(f'{whose}: common ones', SUM(pr, v) == SUM(a, k - 1), [inP, pdef], [L.ext(P, pr, v)])
    I.prove(f'{whose}: ones among the neighbours, among the others', And(SUM(a, k - 1) == l, SUM(b, v - k - 1) == k - l - 1))
    I.prove(f'{whose}: row 1, neighbours of 0', Implies(And(2 <= j, j <= k), f1(j) == z3.If(j < 2 + l, 1, 0)), [L.downto(a, k - 1, j - 2), Or(f1(j) == 0, f1(j) == 1, Not(rng(j, v)))])
    I.prove(f'{whose}: row 1, the others', Implies(And(k + 1 <= j, j < v), f1(j) == z3.If(j < k + 1 + (k - l - 1), 1, 0)),
            [L.downto(b, v - k - 1, j - k - 1), Or(f1(j) == 0, f1(j) == 1, Not(rng(j, v)))])
    row1 = lambda j: z3.If(j == 0, 1, z3.If(j == 1, 0, z3.If(j <= k, z3.If(j < 2 + l, 1, 0), z3.If(j < 2 * k - l, 1, 0))))
    e1 = lambda t: Implies(rng(t, v), f1(t) == row1(t))
    I.prove(f'{whose}: row 1', e1(j))
    r1 = FA(e1, pat=lambda t: [f1(t)])
    I.add(r1)
    return r0, r1, e0, e1


@lemma('the enumeration starts on legal ground', 'C01', 'C02', 'C03', 'C07')
def start_matrix(I):
    """drives the real composition SRG(_seed(v, k, l, u)); _seed through its contract"""
    v, k, l, u = p = ints(I, 'v', 'k', 'l', 'u')
    I.add(valid_params(*p))
    s = I.call(I.get('srg.srg.SRG'), [I.call(I.get('srg.solver._seed'), p, {})], {})
    rows, cols, f, m = matrix_of(I, s)
    I.points = [iv(0), iv(1), iv(2)]
    I.prove('two rows of length v', And(rows == 2, cols == v))
    for n, g in identities(f, z3.IntVal(2), p):
        I.prove(n, g, [L.ext(lambda t: f(0, t) * f(1, t), lambda t: f(1, t) * f(0, t), v)] if n == 'common ones' else ())
    r, c, d = ints(I, 'r', 'c', 'd')
    here = And(0 <= r, r < c, c < d, d < v, same_above(f, r, c, d))
    I.prove('equal above row 1', Implies(And(here, r == 1), f(0, c) == f(0, d)))
    I.prove('ones first', Implies(And(here, r < 2), f(r, c) >= f(r, d)))


@lemma('a matrix with ones first begins with the start matrix', 'C02', 'C03')
def begins_with_start(I):
    v, k, l, u = p = ints(I, 'v', 'k', 'l', 'u')
    I.add(valid_params(*p))
    s = I.call(I.get('srg.srg.SRG'), [I.call(I.get('srg.solver._seed'), p, {})], {})
    rows, cols, f, m = matrix_of(I, s)
    Mf = I.fresh_fn('M', Z, Z, Z)
    M = lambda i, j: Mf(iv(i), iv(j))
    I.points = [iv(0), iv(1)]
    for n, g in identities(M, v, p):
        if n != 'vertices 0 and 1 adjacent':
            I.add(g)
    I.add(ones_first(M, v, v))
    i, j = I.fresh('i'), I.fresh('j')
    first = lambda r, c, d: Implies(And(rng(r, v), r < c, c < d, d < v, same_above(M, r, c, d)), M(r, c) >= M(r, d))
    prove_all(I, 'ones first in row 0', lambda i, j: Implies(And(1 <= i, i < j, j < v), M(0, i) >= M(0, j)), lambda i, j: [first(z3.IntVal(0), i, j)], n=2)
    I.prove('vertices 0 and 1 adjacent', M(0, 1) == 1, [L.ext(lambda t: M(0, t), lambda t: z3.IntVal(0), v), L.closed(lambda t: z3.IntVal(0), lambda t: z3.IntVal(0), v)])
    I.prove('equal above row 1', FA(lambda i, j: Implies(And(2 <= i, i < j, j < v, M(0, i) == M(0, j)), same_above(M, z3.IntVal(1), i, j)), 2))
    prove_all(I, 'ones first in row 1', lambda i, j: Implies(And(2 <= i, i < j, j < v, M(0, i) == M(0, j)), M(1, i) >= M(1, j)), lambda i, j: [first(z3.IntVal(1), i, j)], n=2)
    I.prove('common ones of rows 0 and 1', SUM(lambda t: M(0, t) * M(1, t), v) == l)
    I.prove('edges of the start', And(M(0, 0) == 0, M(1, 1) == 0, M(1, 0) == 1))
    (*a, af, ag), (*b, bf, bg) = rows_determined(I, f, p, 'the start matrix'), rows_determined(I, M, p, 'M')
    for n, x, y in ((0, af, bf), (1, ag, bg)):
        I.derive(f'M begins with the start matrix, row {n}', Implies(rng(j, v), f(n, j) == M(n, j)), a + b, [x(j), y(j)])
    I.prove('those are all its rows', Implies(rng(i, 2), Or(i == 0, i == 1)))


@lemma('a relabelling with the lexicographically greatest matrix has ones first', 'C02')
def greatest_has_ones_first(I):
    """if some row r does not put ones first, swapping the two vertices gives a greater matrix of the same graph"""
    v, k, l, u, r, c, d = ints(I, 'v', 'k', 'l', 'u', 'r', 'c', 'd')
    p = (v, k, l, u)
    Nf = I.fresh_fn('N', Z, Z, Z)
    N = lambda i, j: Nf(iv(i), iv(j))
    sw = lambda t: z3.If(t == c, d, z3.If(t == d, c, t))
    N2 = lambda i, j: N(sw(i), sw(j))
    I.add(valid_params(*p))
    for n, g in identities(N, v, p)[:-1]:
        I.add(g)
    I.add(rng(r, v), r < c, c < d, d < v, same_above(N, r, c, d), N(r, c) < N(r, d))
    i, j = I.fresh('i'), I.fresh('j')
    I.prove('rows before are the same', Implies(And(rng(i, r), rng(j, v)), N2(i, j) == N(i, j)), [Implies(rng(i, r), N(i, c) == N(i, d))])
    I.prove('entries before are the same', Implies(rng(j, c), N2(r, j) == N(r, j)))
    I.prove('the entry is greater', N2(r, c) > N(r, c))
    ent = lambda i, j: Implies(And(rng(i, v), rng(j, v)), Or(N(i, j) == 0, N(i, j) == 1))
    I.prove('entries 0/1', Implies(And(rng(i, v), rng(j, v)), Or(N2(i, j) == 0, N2(i, j) == 1)), [ent(sw(i), sw(j))])
    I.prove('zero diagonal', Implies(rng(i, v), N2(i, i) == 0), [Implies(rng(sw(i), v), N(sw(i), sw(i)) == 0)])
    I.prove('symmetric', Implies(And(rng(i, v), rng(j, v)), N2(i, j) == N2(j, i)), [Implies(And(rng(sw(i), v), rng(sw(j), v)), N(sw(i), sw(j)) == N(sw(j), sw(i)))])

    def swapped(F, what):
        Ff, Gf = I.fresh_fn('F', Z, Z), I.fresh_fn('G', Z, Z)
        F1, G1, G = (lambda t: Ff(iv(t))), (lambda t: Gf(iv(t))), (lambda t: F(sw(t)))
        K = name(I, F1(d) - F1(c))
        h1 = lambda t: F1(t) + z3.If(t == c, 1, 0) * K - z3.If(t == d, 1, 0) * K
        dF, dG = FA(lambda t: F1(t) == F(t), pat=lambda t: [F1(t)]), FA(lambda t: G1(t) == F1(sw(t)), pat=lambda t: [G1(t)])
        I.add(dF, dG)
        here = And(rng(r, v), r < c, c < d, d < v)
        I.derive(f'{what}: entries', Implies(rng(j, v), G1(j) == h1(j)), [dG, here, K == F1(d) - F1(c)])
        e = FA(lambda j: Implies(rng(j, v), G1(j) == h1(j)), pat=lambda t: [G1(t)])
        I.add(e)
        I.derive(f'{what}: the sum over the swapped order', SUM(G1, v) == SUM(F1, v), [e, here], [L.ext(G1, h1, v)])
        I.derive(f'{what}: in the matrix', SUM(G, v) == SUM(F, v), [SUM(G1, v) == SUM(F1, v), dF, dG], [L.ext(G1, G, v), L.ext(F1, F, v)])
    a, b = ints(I, 'a', 'b')
    I.add(a == sw(i), b == sw(j))
    swapped(lambda t: N(a, t), 'ones')
    I.prove('k ones in each row', Implies(rng(i, v), SUM(lambda t: N(a, sw(t)), v) == k), [Implies(rng(a, v), SUM(lambda t: N(a, t), v) == k)])
    swapped(lambda t: N(a, t) * N(b, t), 'common ones')
    I.prove('common ones', Implies(And(rng(i, v), rng(j, v), i != j), SUM(lambda t: N(a, sw(t)) * N(b, sw(t)), v) == z3.If(N2(i, j) == 1, l, u)),
            [Implies(And(rng(a, v), rng(b, v), a != b), SUM(lambda t: N(a, t) * N(b, t), v) == z3.If(N(a, b) == 1, l, u))])
