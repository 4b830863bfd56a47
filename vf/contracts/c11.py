"""sorter.maximize: AdjMat._sort through its contract, the queue of AdjMat.sort through an invariant"""
from contract import *
from contracts.c16 import ints
from contracts.c12 import before, first, binary, same

Z = z3.IntSort()
BOOL = z3.BoolSort()


def matrix(I, s):
    m = I.getattr(s, 'Mat')
    if not (isinstance(m, Arr) and m.ndim == 2):
        raise Unsupported('representation of the matrix')
    g = m.snap()
    return iv(m.shape[0]), iv(m.shape[1]), (lambda i, j: iv(g(iv(i), iv(j)))), m


def inside(c, c0, c1):
    return And(c0 <= c, c < c1)


def symmetric(f, n):
    return FA(lambda i, j: Implies(And(rng(i, n), rng(j, n)), f(i, j) == f(j, i)), 2, pat=lambda i, j: [f(i, j)])


def constant(f, rows, a, b):
    """each of the first rows is constant on the columns a..b-1"""
    return FA(lambda q, c: Implies(And(rng(q, rows), inside(c, a, b)), f(q, c) == f(q, a)), 2, pat=lambda q, c: [f(q, c)])


def bijection(s, t, n):
    return [FA(lambda i: Implies(rng(i, n), And(rng(s(i), n), t(s(i)) == i)), pat=lambda i: [s(i)]),
            FA(lambda i: Implies(rng(i, n), And(rng(t(i), n), s(t(i)) == i)), pat=lambda i: [t(i)])]


def outcome(f, g, sg, si, n, row, c0, c1, fz, same_, w):
    """what sorting row `row` on the columns c0..c1-1 does: f -> g"""
    out = lambda c: And(rng(c, n), Not(inside(c, c0, c1)))
    at = lambda c: [g(row, c)]
    return [
        ('the permutation', bijection(sg, si, n)[0]), ('the permutation, backwards', bijection(sg, si, n)[1]),
        ('it stays outside', FA(lambda c: Implies(out(c), sg(c) == c), pat=lambda c: [sg(c)])),
        ('it stays inside', FA(lambda c: Implies(inside(c, c0, c1), inside(sg(c), c0, c1)), pat=lambda c: [sg(c)])),
        ('the matrix is relabelled', FA(lambda i, j: Implies(And(rng(i, n), rng(j, n)), g(i, j) == f(sg(i), sg(j))), 2, pat=lambda i, j: [g(i, j)])),
        ('symmetric', symmetric(g, n)), ('0/1', binary(g, n)),
        ('earlier rows', FA(lambda q, c: Implies(And(rng(q, row), rng(c, n)), g(q, c) == f(q, c)), 2, pat=lambda q, c: [g(q, c)])),
        ('the row outside', FA(lambda c: Implies(out(c), g(row, c) == f(row, c)), pat=at)),
        ('where the zeros begin', And(c0 <= fz, fz <= c1)),
        ('ones', FA(lambda c: Implies(inside(c, c0, fz), g(row, c) == 1), pat=at)),
        ('zeros', FA(lambda c: Implies(inside(c, fz, c1), g(row, c) == 0), pat=at)),
        ('nothing changed', Implies(same_, FA(lambda i, j: Implies(And(rng(i, n), rng(j, n)), g(i, j) == f(i, j)), 2, pat=lambda i, j: [g(i, j)]))),
        ('the row is greater', Implies(Not(same_), And(inside(w, c0, c1), g(row, w) > f(row, w), FA(lambda c: Implies(And(0 <= c, c < w), g(row, c) == f(row, c)), pat=at)))),
    ]


@contract('C11')
class SortRow(Contract):
    key = 'srg.sorter.AdjMat._sort'

    def args(self, I):
        v, row, c0, c1 = ints(I, 'v', 'row', 'c0', 'c1')
        m = I.fresh_arr((v, v), 'M')
        m.store.prot = 'the matrix'
        am, I.assume_mode = I.assume_mode, True
        s = I.call(I.get('srg.sorter.AdjMat'), [m], {})
        I.assume_mode = am
        I.add(v >= 2)
        return dict(self=s, row=row, colrange=(c0, c1))

    def parts(self, I, a):
        n, n2, f, m = matrix(I, a['self'])
        r, c = a['row'], a['colrange']
        if not (scalar(r) and isinstance(c, tuple) and len(c) == 2):
            raise Unsupported('arguments of _sort')
        return n, n2, f, iv(r), iv(c[0]), iv(c[1])

    def pre(self, I, a):
        n, n2, f, row, c0, c1 = self.parts(I, a)
        return [('square', n == n2), ('row and columns', And(row >= 0, c0 >= 1, c1 <= n)), ('0/1', binary(f, n)), ('symmetric', symmetric(f, n)),
                ('earlier rows are constant on the columns', Implies(And(row < c0, c0 < c1), constant(f, row, c0, c1)))]

    def snapshot(self, I, a):
        return self.parts(I, a)

    def on_return(self, I, a, r, old):
        n, n2, f, row, c0, c1 = old
        s = a['self']
        N, N2, g, m = matrix(I, s)
        idle = Or(row >= c0, c0 >= c1)
        i, j = ints(I, 'i', 'j')
        I.prove('the size stays', And(N == n, N2 == n))
        if r is None:
            I.prove('nothing to do', idle)
            I.prove('then the matrix stays', Implies(And(rng(i, n), rng(j, n)), g(i, j) == f(i, j)))
            return
        if not scalar(r):
            raise Unsupported('result of _sort')
        I.prove('there was something to do', Not(idle))
        if len(I.perms) != 1:
            raise Unsupported('how the columns are sorted')
        p, q, N, sorts = I.perms[0]
        fz, L_ = iv(r), c1 - c0
        I.prove('as many as there are columns', N == L_)
        sgf, sif = I.fresh_fn('sigma', Z, Z), I.fresh_fn('sigmainv', Z, Z)
        sg, si = (lambda c: sgf(iv(c))), (lambda c: sif(iv(c)))
        I.add(FA(lambda c: sg(c) == z3.If(inside(c, c0, c1), c0 + p(c - c0), c), pat=lambda c: [sg(c)]),
              FA(lambda c: si(c) == z3.If(inside(c, c0, c1), c0 + q(c - c0), c), pat=lambda c: [si(c)]))
        old_, new = (lambda t: f(row, c0 + t)), (lambda t: g(row, c0 + t))
        t = I.fresh('t')
        I.prove('the matrix is relabelled', Implies(And(rng(i, n), rng(j, n)), g(i, j) == f(sg(i), sg(j))))
        I.prove('it stays inside', Implies(inside(i, c0, c1), inside(sg(i), c0, c1)))
        bij = prove_all(I, 'the permutation', lambda i: Implies(rng(i, n), And(rng(sg(i), n), si(sg(i)) == i)), pat=lambda i: [sg(i)])
        I.prove('the permutation, backwards', Implies(rng(i, n), And(rng(si(i), n), sg(si(i)) == i)))
        # the sorted row
        t = I.fresh('t')
        new_old = prove_all(I, 'the sorted row', lambda t: Implies(rng(t, L_), new(t) == old_(p(t))), pat=lambda t: [p(t)])
        z = fz - c0
        i2, j2 = ints(I, 'i', 'j')
        dec = lambda i, j: Implies(And(0 <= i, i < j, j < L_), new(i) >= new(j))
        so = lambda t: Implies(rng(t, L_), new(t) == old_(p(t)))
        I.derive('the row is sorted', dec(i2, j2), [N == L_], [so(i2), so(j2), sorts(i2, j2)])
        I.add(FA(dec, 2, pat=lambda i, j: [p(i), p(j)]))
        I.prove('the sorted row is 0/1', Implies(rng(t, L_), Or(new(t) == 0, new(t) == 1)))
        I.add(FA(lambda t: Implies(rng(t, L_), Or(new(t) == 0, new(t) == 1)), pat=lambda t: [p(t)]))
        I.prove('where the zeros begin', And(c0 <= fz, fz <= c1), [L.downto(new, L_, 0), L.nonneg(new, L_)])
        where = lambda t: Implies(rng(t, L_), new(t) == z3.If(t < z, 1, 0))
        I.prove('ones, then zeros', where(t), [L.downto(new, L_, t), dec(t, z), dec(z, t)] + [L.enum_idx(E, n_, t) for E, n_ in I.enums])
        nr = FA(where, pat=lambda t: [p(t)])
        I.add(nr)
        one01 = FA(lambda t: Implies(rng(t, L_), Or(old_(t) == 0, old_(t) == 1)), pat=lambda t: [q(t)])
        I.prove('0/1', Implies(rng(t, L_), Or(old_(t) == 0, old_(t) == 1)))
        I.add(one01)
        # where the row differs first
        w = I.fresh('w')
        d = lambda t: new(t) != old_(t)
        eq = I.fresh('nothing_changes', BOOL)
        all_same = FA(lambda t: Implies(rng(t, L_), new(t) == old_(t)))
        eqdef = eq == all_same
        I.add(eqdef)
        neq = Implies(Not(eq), And(rng(w, L_), new(w) != old_(w), FA(lambda t: Implies(rng(t, w), new(t) == old_(t)))))
        I.derive('the first difference', neq, [eqdef], [L.least(d, L_, w)])
        # if it is smaller there, the ones before it and the one at w have too few places
        low = And(Not(eq), new(w) < old_(w))
        I.prove('smaller: a zero for a one', Implies(low, And(new(w) == 0, old_(w) == 1, z <= w, rng(w, L_))))
        I.prove('smaller: ones before', Implies(And(low, rng(t, z)), old_(t) == 1))
        qd = FA(lambda t: Implies(rng(t, L_), And(rng(q(t), L_), p(q(t)) == t)), pat=lambda t: [q(t)])
        I.prove('places', Implies(rng(t, L_), And(rng(q(t), L_), p(q(t)) == t)))
        I.add(qd)
        I.derive('ones go before the zeros', Implies(And(rng(t, L_), old_(t) == 1), q(t) < z), [qd], [so(q(t)), where(q(t))])
        I.derive('equal entries keep their order', Implies(And(rng(i, L_), rng(j, L_), i < j, old_(i) == old_(j)), q(i) < q(j)), [N == L_, qd], [sorts(q(j), q(i)), sorts(q(i), q(j))])
        inorder = lambda i, j: Implies(And(rng(i, L_), rng(j, L_), i < j, old_(i) == old_(j)), q(i) < q(j))
        ones = lambda t: Implies(And(low, rng(t, z)), old_(t) == 1)
        first_ones = lambda t: Implies(And(low, 0 <= t, t < z - 1), q(t) < q(t + 1))
        zero = Implies(low, And(new(w) == 0, old_(w) == 1, z <= w, rng(w, L_)))
        begins = lambda t: Implies(And(rng(t, L_), old_(t) == 1), q(t) < z)
        I.derive('smaller: ones keep their order, step', first_ones(t), [And(c0 <= fz, fz <= c1)], [inorder(t, t + 1), ones(t), ones(t + 1)])
        fo = FA(first_ones, pat=lambda t: [q(t)])
        I.add(fo)
        y = z - 1
        I.derive('smaller: impossible', Not(low), [fo, zero, qd, And(c0 <= fz, fz <= c1)], [L.slope(q, z, y), inorder(y, w), ones(y), begins(w), begins(z3.IntVal(0))])
        # if it does not differ, nothing moves
        up = lambda t: Implies(And(eq, 0 <= t, t < L_ - 1), p(t) < p(t + 1))
        I.prove('places, forwards', Implies(rng(t, L_), rng(p(t), L_)))
        same1 = lambda t: Implies(And(eq, rng(t, L_)), new(t) == old_(t))
        I.prove('same at a place', same1(i2))
        I.derive('nothing moves, step', up(t), [N == L_, qd, And(c0 <= fz, fz <= c1)], [
            sorts(t, t + 1), *[h(x) for h in (same1, where, so) for x in (t, t + 1, p(t), p(t + 1))], *[And(Implies(rng(x, L_), rng(p(x), L_))) for x in (t, t + 1)]])
        pr = FA(lambda t: Implies(rng(t, L_), rng(p(t), L_)), pat=lambda t: [p(t)])
        I.add(pr)
        ups = FA(up, pat=lambda t: [p(t)])
        I.add(ups)
        I.derive('nothing moves down', Implies(And(eq, rng(t, L_)), p(t) >= t), [ups, pr], [L.slope(p, L_, t)])
        I.derive('nothing moves up', Implies(And(eq, rng(t, L_)), p(t) <= t), [ups, pr], [L.slope(lambda s: p(t + s), L_ - t, L_ - 1 - t)])
        I.add(FA(lambda t: Implies(And(eq, rng(t, L_)), p(t) == t), pat=lambda t: [p(t)]))
        stay = lambda c: Implies(eq, sg(c) == c)
        pt = Implies(And(eq, rng(i - c0, L_)), p(i - c0) == i - c0)
        I.derive('then the permutation does nothing', stay(i), [], [pt, sg(i) == z3.If(inside(i, c0, c1), c0 + p(i - c0), i)])
        I.derive('post: nothing changed', Implies(And(eq, rng(i, n), rng(j, n)), g(i, j) == f(i, j)), [], [
            Implies(And(rng(i, n), rng(j, n)), g(i, j) == f(sg(i), sg(j))), stay(i), stay(j)])
        I.add(Implies(eq, FA(lambda i, j: Implies(And(rng(i, n), rng(j, n)), g(i, j) == f(i, j)), 2)))
        same_ = eq
        W = c0 + w
        for nm, goal in outcome(f, g, sg, si, n, row, c0, c1, fz, same_, W):
            if nm == 'nothing changed':     # above
                continue
            if nm == 'the row is greater':
                I.derive('greater at the first difference', Implies(Not(eq), And(inside(W, c0, c1), g(row, W) > f(row, W))), [neq, Not(low), N == L_], [
                    Implies(rng(w, L_), And(Or(new(w) == 0, new(w) == 1), Or(old_(w) == 0, old_(w) == 1)))])
                c = I.fresh('c')
                I.derive('equal before it', Implies(And(Not(eq), 0 <= c, c < W), g(row, c) == f(row, c)), [neq, N == L_, c1 <= n, c0 >= 1], [
                    Implies(And(rng(c, n), Not(inside(c, c0, c1))), g(row, c) == f(row, c)), Implies(And(neq, Not(eq), rng(c - c0, w)), new(c - c0) == old_(c - c0))])
                I.add(Implies(Not(eq), And(inside(W, c0, c1), g(row, W) > f(row, W), FA(lambda c: Implies(And(0 <= c, c < W), g(row, c) == f(row, c)), pat=lambda c: [g(row, c)]))))
                continue
            I.prove('post: ' + nm, goal)

    def at_call(self, I, a):
        for t in self.pre(I, a):
            I.prove(f'precondition of {self.key}: {t[0]}', t[1])
        n, n2, f, row, c0, c1 = self.parts(I, a)
        if I.decide(Or(row >= c0, c0 >= c1)):
            return None
        gf, sgf, sif = I.fresh_fn('sorted', Z, Z, Z), I.fresh_fn('sigma', Z, Z), I.fresh_fn('sigmainv', Z, Z)
        g, sg, si = (lambda i, j: gf(iv(i), iv(j))), (lambda c: sgf(iv(c))), (lambda c: sif(iv(c)))
        fz, w, same_ = I.fresh('fz'), I.fresh('w'), I.fresh('same', BOOL)
        for nm, t in outcome(f, g, sg, si, n, row, c0, c1, fz, same_, w):
            I.add(t)
        I.setattr(a['self'], 'Mat', Arr((n, n), g))
        if 'track' in I.ghost:
            I.ghost['track'](I, f, g, sg, si, n, row, same_, w)
        return fz


def name_b(I, f):
    c = I.fresh('nb', BOOL)
    I.add(c == f)
    return c


# ------------------------------------------------------------------------------------------------ maximize
class Track:
    """ghost: the current matrix is the input relabelled by pi; it equals the input (eq) or is greater first at (p, q)"""

    def __init__(self, I, A, n):
        self.A, self.n = A, n
        self.fresh(I)

    def fresh(self, I):
        a, b = I.fresh_fn('pi', Z, Z), I.fresh_fn('piinv', Z, Z)
        self.pi, self.inv = (lambda i: a(iv(i))), (lambda i: b(iv(i)))
        self.eq, self.p, self.q = I.fresh('eq', BOOL), I.fresh('p'), I.fresh('q')

    def facts(self, f):
        n, A, pi, inv = self.n, self.A, self.pi, self.inv
        a, b = bijection(pi, inv, n)
        return [
            ('the vertices are permuted', a), ('the vertices are permuted, backwards', b), ('vertex 0 stays first', pi(0) == 0),
            ('the matrix is the input relabelled', FA(lambda i, j: Implies(And(rng(i, n), rng(j, n)), f(i, j) == A(pi(i), pi(j))), 2, pat=lambda i, j: [f(i, j)])),
            ('symmetric', symmetric(f, n)), ('0/1', binary(f, n)),
            ('neighbours of vertex 0 first', FA(lambda c, d: Implies(And(1 <= c, c < d, d < n), f(0, c) >= f(0, d)), 2, pat=lambda c, d: [f(0, c), f(0, d)])),
            ('not lower: equal', Implies(self.eq, FA(lambda i, j: Implies(And(rng(i, n), rng(j, n)), f(i, j) == A(i, j)), 2, pat=lambda i, j: [f(i, j)]))),
            ('not lower: or greater', Implies(Not(self.eq), greater(f, A, n, self.p, self.q))),
        ]

    def __call__(self, I, f, g, sg, si, n, row, same_, w):
        """after a sort: f -> g"""
        pi0, inv0, eq0, p0, q0, A = self.pi, self.inv, self.eq, self.p, self.q, self.A
        new = Track(I, A, self.n)
        i, j, x = ints(I, 'i', 'j', 'x')
        I.add(FA(lambda i: new.pi(i) == pi0(sg(i)), pat=lambda i: [new.pi(i)]), FA(lambda i: new.inv(i) == si(inv0(i)), pat=lambda i: [new.inv(i)]))
        here = Or(eq0, before(row, w, p0, q0))
        I.add(new.eq == And(eq0, same_), new.p == z3.If(And(Not(same_), here), row, p0), new.q == z3.If(And(Not(same_), here), w, q0))
        I.prove('greater after a sort: where', Implies(Not(new.eq), And(0 <= new.p, new.p < new.q, new.q < n, g(new.p, new.q) > A(new.p, new.q))))
        e = lambda i, j: And(0 <= i, i < j, j < n, before(i, j, new.p, new.q))
        I.prove('greater after a sort: first', Implies(And(Not(new.eq), e(i, j)), g(i, j) == A(i, j)))
        I.add(Implies(Not(new.eq), greater(g, A, n, new.p, new.q)))
        for nm, t in new.facts(g):
            if nm != 'not lower: or greater':
                I.prove(f'after a sort: {nm}', t)
        self.__dict__.update(new.__dict__)


def greater(f, g, n, p, q):
    return And(0 <= p, p < q, q < n, f(p, q) > g(p, q),
               FA(lambda i, j: Implies(And(0 <= i, i < j, j < n, before(i, j, p, q)), f(i, j) == g(i, j)), 2, pat=lambda i, j: [f(i, j)]))


def entry(x):
    """(row, c0, c1, d) of an entry of the queue"""
    if not (isinstance(x, NTVal) and sorted(x.cls.fields) == ['colrange', 'div_index', 'row']):
        raise Unsupported('representation of the queue')
    r, c, d = (x.vals[x.cls.fields.index(n)] for n in ('row', 'colrange', 'div_index'))
    if not (isinstance(c, tuple) and len(c) == 2 and all(scalar(t) for t in (r, d, *c))):
        raise Unsupported('representation of the queue')
    return iv(r), iv(c[0]), iv(c[1]), iv(d)


def pieces(I, sq):
    """the queue as a list of (length, entries)"""
    if 'concat' in sq.tag:
        return [y for x in sq.tag['concat'] for y in pieces(I, x)]
    n = conc(sq.n)
    if n is not None and n <= 32:
        return [(z3.IntVal(1), lambda t, i=i: entry(sq.at(i))) for i in range(n)]
    return [(iv(sq.n), lambda t: entry(sq.at(t)))]


def disjoint(x, y):
    return Or(x[2] <= y[1], y[2] <= x[1])


class QueueLoop(LoopSpec):
    strict = True

    def accepts(self, st):
        return isinstance(st, ast.While)

    def start(self, I, env, st, sq):
        ls = {x.id for x in ast.walk(st.test) if isinstance(x, ast.Name) and isinstance(env.vars.get(x.id), PyList)}
        if len(ls) != 1 or SortRow.key not in I.used_contracts:
            raise Unsupported('the refinement is not a loop over one queue')
        self.name = ls.pop()
        l = env.vars[self.name]
        if any(x is l for n, x in env.vars.items() if n != self.name):
            raise Unsupported('two names for the queue')
        self.names = (self.name,)
        objs = {id(x): x for x in env.vars.values() if isinstance(x, Obj) and x.cls.name == 'AdjMat'}
        if len(objs) != 1:
            raise Unsupported('the matrix under work')
        self.obj = list(objs.values())[0]
        self.lists = []
        return {}

    def frame(self, I, env, s):
        self.lists = [self.obj]
        return self.lists

    def inv(self, I, env, i, s):
        l = env.vars[self.name]
        T = I.ghost['track']
        n, n2, f, m = matrix(I, self.obj)
        ps = pieces(I, I.to_seq(l))
        out = [('square', And(n == T.n, n2 == T.n))] + T.facts(f)

        def one(N, at):
            x = lambda t: at(t)
            return [
                FA(lambda t: Implies(rng(t, N), (lambda r, c0, c1, d: And(0 <= r, r < c0, 1 <= c0, c0 <= d, d <= c1, c1 <= n))(*x(t)))),
                FA(lambda t, q, c: (lambda r, c0, c1, d: Implies(And(rng(t, N), 0 <= q, q <= r, inside(c, c0, d)), f(q, c) == f(q, c0)))(*x(t)), 3),
                FA(lambda t, q, c: (lambda r, c0, c1, d: Implies(And(rng(t, N), 0 <= q, q <= r, inside(c, d, c1)), f(q, c) == f(q, d)))(*x(t)), 3)]
        for k, nm in enumerate(('ranges of the queue', 'rows constant on the left part', 'rows constant on the right part')):
            out.append((nm, And(*[one(N, at)[k] for N, at in ps])))
        for nm, rel in (('disjoint ranges', disjoint), ('rows in order', lambda x, y: And(x[0] <= y[0], y[0] <= x[0] + 1))):
            fs = []
            for a, (N, at) in enumerate(ps):
                if conc(N) != 1:
                    fs.append(FA(lambda t, t2: Implies(And(0 <= t, t < t2, t2 < N), rel(at(t), at(t2))), 2))
                for N2, at2 in ps[a + 1:]:
                    fs.append(FA(lambda t, t2: Implies(And(rng(t, N), rng(t2, N2)), rel(at(t), at2(t2))), 2))
            out.append((nm, And(*fs)))
        return out

    def havoc(self, I, env, s):
        T = I.ghost['track']
        n = T.n
        N = I.fresh('N')
        I.add(N >= 0)
        r, c0, c1, d = (I.fresh_fn(x, Z, Z) for x in ('row', 'from', 'to', 'div'))
        cls = I.get('srg.sorter.SortInstruct')
        if not isinstance(cls, NTClass):
            raise Unsupported('representation of the queue')
        val = lambda t: {'row': r(iv(t)), 'colrange': (c0(iv(t)), c1(iv(t))), 'div_index': d(iv(t))}
        l = PyList(seq=Seq(N, lambda t: NTVal(cls, [val(t)[x] for x in cls.fields])))
        env.vars[self.name] = l
        self.lists.append(l)
        g = I.fresh_fn('M', Z, Z, Z)
        I.setattr(self.obj, 'Mat', Arr((n, n), lambda i, j: g(iv(i), iv(j))))
        T2 = Track(I, T.A, n)
        I.ghost['track'] = T2


@contract('C11')
class Maximize(Contract):
    key = 'srg.sorter.maximize'

    def loops(self):
        return [QueueLoop()]

    def args(self, I):
        v, = ints(I, 'v')
        Af = I.fresh_fn('A', Z, Z, Z)
        A = lambda i, j: Af(iv(i), iv(j))
        m = Arr((v, v), A)
        m.store.prot = 'the input'
        I.add(v >= 2, binary(A, v), symmetric(A, v))
        T = Track(I, A, v)
        I.add(FA(lambda i: And(T.pi(i) == i, T.inv(i) == i), pat=lambda i: [T.pi(i)]), FA(lambda i: T.inv(i) == i, pat=lambda i: [T.inv(i)]), T.eq)
        I.ghost = dict(track=T)
        return dict(A=m)

    def on_return(self, I, a, r, old):
        T = I.ghost['track']
        if SortRow.key not in I.used_contracts:
            raise Unsupported('rows are not sorted by AdjMat._sort')
        if not (isinstance(r, Arr) and r.ndim == 2):
            raise Unsupported('result of maximize')
        g = r.snap()
        I.prove('the size stays', And(iv(r.shape[0]) == T.n, iv(r.shape[1]) == T.n))
        for nm, t in T.facts(lambda i, j: iv(g(iv(i), iv(j)))):
            I.prove(nm, t)
