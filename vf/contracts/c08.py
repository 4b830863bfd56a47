from contract import *
from contracts.c16 import ints
from contracts.c05 import QV
from contracts.c06 import binary, nonzero_columns, same_columns
import contracts.c09, contracts.c06


# ------------------------------------------------------------------------------------------------ bounds.py
def vec(I, x, what):
    if isinstance(x, Arr) and x.ndim == 1:
        return iv(x.shape[0]), lambda i: iv(x.get(i))
    if isinstance(x, (PyList, tuple, Seq)):
        s = I.to_seq(x)
        return iv(s.n), lambda i: iv(s.at(i))
    raise Unsupported(f'{what} is not a vector')


class RowsLoop(LoopSpec):
    """rows of A together with b; bounds shrink to b[r] at the non-zero columns of the rows seen"""

    strict = True

    def frame(self, I, env, s):
        return [I.ghost['B'].store]

    def start(self, I, env, st, sq):
        A, b, B = I.ghost['A'], I.ghost['b'], I.ghost['B']
        if not z3.simplify(iv(sq.n)).eq(z3.simplify(iv(A.shape[0]))):
            raise Unsupported('loop is not over the rows')
        return {'B0': I.ghost['B0']}

    def inv(self, I, env, i, s):
        A, b, B, B0, wv = (I.ghost[n] for n in ('A', 'b', 'B', 'B0', 'wv'))
        C = iv(A.shape[1])
        Bc = lambda c: iv(B.get(c))
        return [('bounds shrink', FA(lambda c: Implies(rng(c, C), And(0 <= Bc(c), Bc(c) <= B0(c))))),
                ('bounds of the rows seen', FA(lambda r, c: Implies(And(rng(r, i), rng(c, C), iv(A.get(r, c)) != 0), Bc(c) <= iv(b.get(r))), 2)),
                ('no bound shrinks below a vector that respects the rows',
                 FA(lambda c: Implies(And(rng(c, C), wv(c) <= B0(c), FA(lambda r: Implies(And(rng(r, i), iv(A.get(r, c)) != 0), wv(c) <= iv(b.get(r))))),
                                      wv(c) <= Bc(c))))]

    def havoc(self, I, env, s):
        B = I.ghost['B']
        f = I.fresh_fn('B', Z, Z)
        I.log_store(B.store)
        B.store.fn = lambda *ix: f(*[iv(i) for i in ix])


class ColsLoop(LoopSpec):
    """the non-zero positions of one row"""

    strict = True
    frame = RowsLoop.frame

    def start(self, I, env, st, sq):
        E = sq.tag.get('arr')
        E = E.tag.get('enum') if E is not None else None
        if E is None or not z3.simplify(iv(E[1])).eq(z3.simplify(iv(I.ghost['A'].shape[1]))):
            raise Unsupported('loop is not over the non-zero positions of a row')
        B = I.ghost['B']
        return {'B1': B.snap(), 'sq': sq}

    def inv(self, I, env, i, s):
        A, b, B, wv = (I.ghost[n] for n in ('A', 'b', 'B', 'wv'))
        C = iv(A.shape[1])
        Bc = lambda c: iv(B.get(c))
        B1 = lambda c: iv(s['B1'](c))
        row = I.ghost['row']
        return [('bounds shrink', FA(lambda c: Implies(rng(c, C), And(0 <= Bc(c), Bc(c) <= B1(c))))),
                ('positions seen', FA(lambda p: Implies(rng(p, i), Bc(iv(s['sq'].at(p))) <= iv(b.get(row))))),
                ('no bound shrinks below a vector that respects the row',
                 FA(lambda c: Implies(And(rng(c, C), wv(c) <= B1(c), Implies(iv(A.get(row, c)) != 0, wv(c) <= iv(b.get(row)))), wv(c) <= Bc(c))))]

    havoc = RowsLoop.havoc


class RowsLoop2(RowsLoop):
    def before_body(self, I, env, i, s):
        I.ghost['row'] = i


@contract('C08', 'C04', 'C07')
class LowerUpper(Contract):
    """ghost['wv']: a vector the caller is interested in"""
    key = 'srg.bounds.lower_upper_bound'

    def loops(self):
        return [RowsLoop2(), ColsLoop()]

    def args(self, I):
        R, C = ints(I, 'R', 'C')
        I.add(R >= 0, C >= 0)
        A, b, B = I.fresh_arr((R, C), 'A'), I.fresh_arr((R,), 'b'), I.fresh_arr((C,), 'B')
        A.store.prot, b.store.prot = 'the matrix', 'the right-hand side'
        w = I.fresh_fn('w', Z, Z)
        I.ghost = dict(A=A, b=b, B=B, wv=lambda c: w(iv(c)), row=z3.IntVal(0))
        f = B.snap()
        I.ghost['B0'] = lambda c: iv(f(c))
        return dict(A=A, b=b, bounds=B)

    def pre(self, I, a):
        A, b, B = a['A'], a['b'], a['bounds']
        R, C = A.shape
        return [('one bound per column', iv(B.shape[0]) == iv(C)), ('one right-hand side per row', iv(b.shape[0]) == iv(R)),
                ('nothing is negative', And(FA(lambda r: Implies(rng(r, R), iv(b.get(r)) >= 0)), FA(lambda c: Implies(rng(c, C), iv(B.get(c)) >= 0))))]

    def posts(self, A, b, B, B0, wv):
        C, R = iv(A.shape[1]), iv(A.shape[0])
        Bc = lambda c: iv(B.get(c))
        return [('bounds shrink', FA(lambda c: Implies(rng(c, C), And(0 <= Bc(c), Bc(c) <= B0(c))), pat=lambda c: [Bc(c)])),
                ('no bound shrinks below a vector that respects the rows',
                 FA(lambda c: Implies(And(rng(c, C), wv(c) <= B0(c), FA(lambda r: Implies(And(rng(r, R), iv(A.get(r, c)) != 0), wv(c) <= iv(b.get(r))))),
                                      wv(c) <= Bc(c)), pat=lambda c: [Bc(c)]))]

    def on_return(self, I, a, r, old):
        if r is not None:
            raise Unsupported('lower_upper_bound returns something')
        for n, f in self.posts(*(I.ghost[x] for x in ('A', 'b', 'B', 'B0', 'wv'))):
            I.prove('post: ' + n, f)

    def at_call(self, I, a):
        A, b, B = a['A'], a['b'], a['bounds']
        for t in self.pre(I, a):
            I.prove(f'precondition of {self.key}: {t[0]}', t[1])
        if B.store.prot:
            I.frame_violation(f'{B.store.prot} is written')
        f0 = B.snap()
        f = I.fresh_fn('B', Z, Z)
        I.log_store(B.store)
        if B.ndim != 1 or B.tag.get('view'):
            raise Unsupported('bounds is a view')
        B.store.writes += 1
        B.store.fn = lambda *ix: f(*[iv(i) for i in ix])
        I.ghost['bounds now'] = lambda c: f(iv(c))
        for n, g in self.posts(A, b, B, lambda c: iv(f0(c)), I.ghost['wv']):
            I.add(g)
        return None


@contract('C08', 'C04')
class OneElement(Contract):
    """pairs (row, column): the row has its only non-zero entry in the column; no column twice"""
    key = 'srg.bounds.one_element_row_locs'

    def args(self, I):
        R, C = ints(I, 'R', 'C')
        I.add(R >= 0, C >= 0)
        A = I.fresh_arr((R, C), 'A')
        A.store.prot = 'the matrix'
        return dict(A=A)

    def pairs(self, I, r):
        if not isinstance(r, (PySet, PyList, tuple, Seq)):
            raise Unsupported('result of one_element_row_locs')
        sq = I.to_seq(r)
        x = sq.at(I.fresh('t'))
        if not (isinstance(x, tuple) and len(x) == 2 and all(scalar(y) for y in x)):
            raise Unsupported('entries of the result of one_element_row_locs')
        return sq, lambda t: iv(sq.at(t)[0]), lambda t: iv(sq.at(t)[1])

    def on_return(self, I, a, res, old):
        A = a['A']
        R, C = (iv(x) for x in A.shape)
        sq, r, c = self.pairs(I, res)
        T = iv(sq.n)
        e = lambda i, j: iv(A.get(i, j))
        I.prove('number of pairs', T >= 0)
        prove_all(I, 'positions', lambda t: Implies(rng(t, T), And(rng(r(t), R), rng(c(t), C))))
        prove_all(I, 'the entry is not zero', lambda t: Implies(rng(t, T), e(r(t), c(t)) != 0))
        touch = lambda i, j: [Implies(And(rng(i, R), rng(j, C), e(i, j) != 0), And(rng(p(i, j), N), rr(p(i, j)) == i, cc(p(i, j)) == j))
                              for N, rr, cc, p in I.nonzeros] + [G.gid(p(i, j)) == G.gid(p(i, j)) for N, rr, cc, p in I.nonzeros for G in I.groupings]
        prove_all(I, 'it is alone in its row', lambda t, d: Implies(And(rng(t, T), rng(d, C), d != c(t)), e(r(t), d) == 0), n=2,
                  hints=lambda t, d: touch(r(t), d) + touch(r(t), c(t)))
        prove_all(I, 'no column twice', lambda t, u: Implies(And(0 <= t, t < u, u < T), c(t) != c(u)), n=2)

    def at_call(self, I, a):
        A = a['A']
        if not (isinstance(A, Arr) and A.ndim == 2):
            raise Unsupported('argument of one_element_row_locs')
        R, C = (iv(x) for x in A.shape)
        f = A.snap()
        e = lambda i, j: iv(f(i, j))
        T, r, c = I.fresh('T'), I.fresh_fn('lr', Z, Z), I.fresh_fn('lc', Z, Z)
        I.add(T >= 0, FA(lambda t: Implies(rng(t, T), And(rng(r(t), R), rng(c(t), C), e(r(t), c(t)) != 0)), pat=lambda t: [r(t)]),
              FA(lambda t: Implies(rng(t, T), And(rng(r(t), R), rng(c(t), C), e(r(t), c(t)) != 0)), pat=lambda t: [c(t)]),
              FA(lambda t, d: Implies(And(rng(t, T), rng(d, C), d != c(t)), e(r(t), d) == 0), 2),
              FA(lambda t, u: Implies(And(0 <= t, t < u, u < T), c(t) != c(u)), 2))
        sq = Seq(T, lambda t: (r(iv(t)), c(iv(t))))
        s = PySet(sq)
        s.once = sq
        I.ghost['pairs'] = (T, r, c)
        return s


# ------------------------------------------------------------------------------------------------ questions
class QS:
    """the state of a Question object at one moment"""

    def __init__(self, I, q):
        V = QV(I, q)
        self.q, self.V = q, V
        self.R, self.C, self.N = iv(V.R), iv(V.C), iv(V.N)
        A, b, bd, v, loc = [x.snap() for x in (V.A, V.b, V.bounds, V.v, V.loc)]
        self.A = lambda r, c: iv(A(r, c))
        self.b = lambda r: iv(b(r))
        self.bd = lambda c: iv(bd(c))
        self.v = lambda i: iv(v(i))
        self.loc = lambda i: iv(loc(i))
        self.quota, self.len = iv(V.quota), iv(V.len)
        self.shapes = And(iv(V.b.shape[0]) == self.R, iv(V.bounds.shape[0]) == self.C, iv(V.loc.shape[0]) == self.N)
        self.U = Enum(lambda i: self.v(i) == -1)
        self.stores = {'A': V.A.store, 'b': V.b.store, 'bounds': V.bounds.store, 'v': V.v.store, 'loc': V.loc.store}

    def unk(self, c):
        return self.U.at(c)

    def nxt(self, i):
        return z3.If(i + 1 < self.N, self.loc(i + 1), self.len)

    def size(self, i):
        return self.nxt(i) - self.loc(i)


def wf_shape(q):
    return [('shapes', And(q.shapes, q.R >= 0, q.N >= 0, q.C == q.U.cnt(q.N), q.len >= 0))]


def wf_loc(q):
    return [('positions of the groups', And(Implies(q.N > 0, And(q.loc(z3.IntVal(0)) == 0, q.loc(q.N - 1) < q.len)), Implies(q.N == 0, q.len == 0),
                                            FA(lambda i: Implies(And(0 <= i, i + 1 < q.N), q.loc(i) < q.loc(i + 1)), pat=lambda i: [q.loc(i)])))]


def wf_vals(q):
    return [('matrix 0/1', binary(q.A, q.R, q.C)),
            ('right-hand sides 0..127', FA(lambda r: Implies(rng(r, q.R), And(0 <= q.b(r), q.b(r) <= 127)), pat=lambda r: [q.b(r)])),
            ('bounds not negative', FA(lambda c: Implies(rng(c, q.C), q.bd(c) >= 0), pat=lambda c: [q.bd(c)])),
            ('quota not negative', q.quota >= 0),
            ('known counts not negative', FA(lambda i: Implies(rng(i, q.N), q.v(i) >= -1), pat=lambda i: [q.v(i)])),
            ('no zero column', nonzero_columns(q.A, q.R, q.C))]


def wf(q):
    return wf_shape(q) + wf_loc(q) + wf_vals(q)


def distinct_columns(q):
    return FA(lambda c, d: Implies(And(0 <= c, c < d, d < q.C), z3.Not(same_columns(q.A, q.R, c, d))), 2)


def known(q, W):
    return FA(lambda i: Implies(And(rng(i, q.N), q.v(i) != -1), q.v(i) == W(i)), pat=lambda i: [q.v(i)])


def row_sum(q, W, r):
    return SUM(lambda c: q.A(r, c) * W(q.unk(c)), q.C)


def lin(q, W):
    return FA(lambda r: Implies(rng(r, q.R), row_sum(q, W, r) == q.b(r)))


def bounded(q, W):
    return FA(lambda c: Implies(rng(c, q.C), W(q.unk(c)) <= q.bd(c)), pat=lambda c: [q.unk(c)])


def total(q, W):
    return SUM(lambda c: W(q.unk(c)), q.C)


def sol(q, W):
    return And(known(q, W), lin(q, W), bounded(q, W))


def implied(q, W):
    """the quota follows from the equations"""
    return Implies(And(known(q, W), lin(q, W)), total(q, W) == q.quota)


def construct(I, R, C, N, fresh=None):
    """an arbitrary question (the asserts of the constructors are assumed)"""
    am, I.assume_mode = I.assume_mode, True
    try:
        A, b, bd = I.fresh_arr((R, C), 'A'), I.fresh_arr((R,), 'b'), I.fresh_arr((C,), 'bd')
        v, loc = I.fresh_arr((N,), 'v'), I.fresh_arr((N,), 'loc')
        ln, qu = I.fresh('len'), I.fresh('quota')
        I.add(qu >= 0, FA(lambda c: Implies(rng(c, C), iv(bd.get(c)) >= 0)), FA(lambda r: Implies(rng(r, R), iv(b.get(r)) >= 0)))
        ans = I.call(I.get('srg.srg.Answer'), [], {'value': v, 'location': loc, 'len': ln})
        q = I.call(I.get('srg.srg.Question'), [A, b], {'quota': qu, 'bounds': bd, 'ans': ans})
    finally:
        I.assume_mode = am
    return q


def sizes(I, q):
    """facts about the sizes of the groups: positive, adding up to the length"""
    i = I.fresh('i')
    I.add(L.closed(lambda i: q.size(i), lambda i: z3.If(i < q.N, q.loc(i), q.len), q.N))


class Step(Contract):
    """a step keeps W as a solution (W: ones per group, arbitrary within the group sizes)"""
    protected = ('A', 'loc')
    any_columns = True          # equal columns are allowed; pairwise different columns stay so

    def args(self, I):
        R, C, N = ints(I, 'R', 'C', 'N')
        I.add(R >= 0, C >= 0, N >= 0)
        q = construct(I, R, C, N)
        s = QS(I, q)
        for f in wf(s):
            I.add(f[1])
        w = I.fresh_fn('W', Z, Z)
        W = lambda i: w(iv(i))
        I.add(L.enum_facts(s.U, s.N))
        I.add(FA(lambda i: Implies(rng(i, s.N), And(0 <= W(i), W(i) <= s.size(i))), pat=lambda i: [W(i)]))
        I.add(FA(lambda i: W(i) >= 0, pat=lambda i: [W(i)]))
        I.add(implied(s, W))
        self.dist = name_b(I, distinct_columns(s)) if self.any_columns else z3.BoolVal(True)
        if not self.any_columns:
            I.add(distinct_columns(s))
        sizes(I, s)
        for n in self.protected:
            s.stores[n].prot = f'Q.{n}'
        self.s, self.W = s, W
        I.ghost = dict(q=s, W=W, xs=[lambda c: W(s.unk(c))], wv=lambda c: W(s.unk(c)))
        return dict(Q=q)

    def on_raise(self, I, a, exc, old):
        if exc.cls.name != 'NoSolution':
            I.prove(f'no exception ({exc.cls.name})', False)
            return
        s, W = self.s, self.W
        t = QS(I, a['Q'])
        if self.changed(s, t):
            I.prove('same groups', And(t.N == s.N, t.len == s.len, FA(lambda i: Implies(rng(i, s.N), t.loc(i) == s.loc(i)))))
            I.prove('shapes', t.shapes)
            self.transfer(I, s, t, W)
            I.prove('unknowns', t.C == t.U.cnt(t.N))
            self.same_solutions(I, s, t, W)
            self.before(I, t)
            self.fits(I, t, W, I.nm['Kt'])
            I.prove('no solution is left only if there is none', z3.Not(I.solt))
            I.prove('no solution is reported only if there is none', z3.Not(I.sols))
        else:
            self.before(I, s)
            I.prove('no solution is reported only if there is none', z3.Not(sol(s, W)))

    def at_call(self, I, a):
        import contracts.c04 as c4
        return c4.step_call(self, I, a)

    def fits(self, I, t, W, K):
        """a solution fits into the groups"""
        i = I.fresh('i')
        I.derive('known counts of a solution fit', Implies(And(K, rng(i, t.N)), t.v(i) <= t.size(i)), [
            Implies(And(K, rng(i, t.N), t.v(i) != -1), t.v(i) == W(i)), Implies(rng(i, t.N), And(0 <= W(i), W(i) <= t.size(i)))])
        I.add(FA(lambda i: Implies(And(K, rng(i, t.N)), t.v(i) <= t.size(i))))

    def changed(self, s, t):
        f = lambda q: (q.stores['A'].id, q.stores['b'].id, q.stores['bounds'].id, q.stores['v'].id)
        i, j = z3.Ints('_i _j')
        same = [t.A(i, j).eq(s.A(i, j)), t.b(i).eq(s.b(i)), t.v(i).eq(s.v(i)), t.bd(i).eq(s.bd(i)), t.quota.eq(s.quota)]
        return not all(same)

    def before(self, I, q):
        """what a solution of q must satisfy"""
        W = self.W
        x = lambda c: W(q.unk(c))
        I.prove('the quota of a solution is within the bounds', Implies(sol(q, W), q.quota <= SUM(lambda c: q.bd(c), q.C)),
                [L.mono(x, lambda c: q.bd(c), q.C)])

    def on_return(self, I, a, r, old):
        if r is not None:
            raise Unsupported('the step returns something')
        s, W = self.s, self.W
        t = QS(I, a['Q'])
        I.prove('same groups', And(t.N == s.N, t.len == s.len, FA(lambda i: Implies(rng(i, s.N), t.loc(i) == s.loc(i)))))
        I.prove('shapes', t.shapes)
        self.transfer(I, s, t, W)
        for n, f in wf_shape(t):
            I.prove('afterwards: ' + n, f)
        self.columns(I, s, t)
        for n, f in wf_vals(t):
            I.prove('afterwards: ' + n, f)
        I.prove('afterwards: columns pairwise different, if they were', Implies(self.dist, distinct_columns(t)))
        self.finished(I, t)
        self.same_solutions(I, s, t, W)

    def finished(self, I, t):
        """what the decorator has checked"""
        I.prove('afterwards: equations without unknowns are 0 = 0', FA(lambda r: Implies(And(t.C == 0, rng(r, t.R)), t.b(r) == 0)))
        I.prove('afterwards: known counts fit', FA(lambda i: Implies(rng(i, t.N), t.v(i) <= t.size(i))))

    def same_solutions(self, I, s, t, W):
        """transfer() has related the rows and the total of s and t"""
        nm = {}
        for k, q in (('s', s), ('t', t)):
            for n, f in (('K', known), ('L', lin), ('B', bounded)):
                nm[n + k] = name_b(I, f(q, W))
        self.names(I, s, t, W, nm)
        imp = [implied(s, W)]
        I.prove('the equations imply those before', Implies(And(nm['Kt'], nm['Lt']), And(nm['Ks'], nm['Ls'])))
        I.prove('afterwards: the quota follows from the equations', Implies(And(nm['Kt'], nm['Lt']), total(t, W) == t.quota), imp)
        I.prove('a solution before is one afterwards', Implies(And(nm['Ks'], nm['Ls'], nm['Bs']), And(nm['Kt'], nm['Lt'], nm['Bt'])))
        I.prove('a solution afterwards was one before', Implies(And(nm['Kt'], nm['Lt'], nm['Bt']), And(nm['Ks'], nm['Ls'], nm['Bs'])))
        I.nm = nm
        I.sols, I.solt = And(nm['Ks'], nm['Ls'], nm['Bs']), And(nm['Kt'], nm['Lt'], nm['Bt'])

    def names(self, I, s, t, W, nm):
        """further facts on the named parts of the solution predicates"""

    def columns(self, I, s, t):
        """facts about the columns of t"""
        prove_all(I, 'columns stay different', lambda c, d: Implies(And(self.dist, 0 <= c, c < d, d < t.C), z3.Not(same_columns(t.A, t.R, c, d))),
                  lambda c, d: [Implies(And(self.dist, 0 <= c, c < d, d < s.C), z3.Not(same_columns(s.A, s.R, c, d)))], 2)

    def transfer(self, I, s, t, W):
        raise NotImplementedError


@contract('C08', 'C04')
class Eliminate(Step):
    key = 'srg.solver.eliminate'

    def transfer(self, I, s, t, W):
        unchanged(I, s, t, W)

    def columns(self, I, s, t):
        still = I.ghost.get('elim_same')
        if still is None:
            return super().columns(I, s, t)
        c, d = I.fresh('c'), I.fresh('d')
        was = same_columns(s.A, s.R, c, d)
        here = And(0 <= c, c < d, d < t.C)
        I.prove('columns that are equal were equal', Implies(And(here, same_columns(t.A, t.R, c, d)), was), [still(c, d)])
        differ = lambda c, d: Implies(And(self.dist, 0 <= c, c < d, d < t.C), z3.Not(same_columns(t.A, t.R, c, d)))
        I.derive('columns stay different', differ(c, d), [Implies(And(here, same_columns(t.A, t.R, c, d)), was), t.C == s.C],
                 [Implies(And(self.dist, 0 <= c, c < d, d < s.C), z3.Not(was))])
        I.add(FA(differ, 2))


def unchanged(I, s, t, W):
    """t has the unknowns of s"""
    I.prove('same unknowns', And(t.C == s.C, FA(lambda i: Implies(rng(i, s.N), t.v(i) == s.v(i)))))
    I.add(L.enum_same(s.U, t.U, s.N))
    prove_all(I, 'rows on the unknowns', lambda r: row_sum(t, W, r) == SUM(lambda c: t.A(r, c) * W(s.unk(c)), s.C),
              lambda r: [L.ext(lambda c: t.A(r, c) * W(t.unk(c)), lambda c: t.A(r, c) * W(s.unk(c)), s.C)])
    I.prove('total of the unknowns', total(t, W) == total(s, W), [L.ext(lambda c: W(t.unk(c)), lambda c: W(s.unk(c)), s.C)])


def scatter_at(I, i):
    """facts about the loop writes at index i of a vector: the positions at which i may have been written"""
    gs = {t.sexpr(): t for t in cnt_at(I, i)}
    for t in list(gs.values()):
        gs.update({u.sexpr(): u for u in cnt_at(I, t)})
    out = []
    for wr, C, n, s in I.scatters:
        if wr.arity() != 1:
            continue
        x = wr(iv(i))
        out.append(z3.And(0 <= x, x <= iv(n), z3.Implies(x < iv(n), zb(C((iv(i),), x)))))
        for g in gs.values():
            out.append(z3.Implies(z3.And(0 <= g, g < iv(n), zb(C((iv(i),), g))), x <= g))
    for sq, ins, wf in I.members:
        w = wf(iv(i))
        out.append(z3.Implies(ins(iv(i)), z3.And(0 <= w, w < iv(sq.n), iv(sq.at(w)) == iv(i))))
        for g in gs.values():
            out.append(z3.Implies(z3.And(0 <= g, g < iv(sq.n), iv(sq.at(g)) == iv(i)), ins(iv(i))))
    return out


class Shrink(Step):
    """columns are deleted; the kept ones are enumerated by E (the last enumeration of kept columns that np.delete made)"""

    def kept(self, I, s, t):
        """an enumeration of the kept columns, from the code's own np.delete on the columns"""
        for E, n in reversed(I.deletions):
            if z3.simplify(iv(n)).eq(z3.simplify(s.C)):
                return E
        return None

    def transfer(self, I, s, t, W):
        E = self.E = self.kept(I, s, t)
        if E is None:
            unchanged(I, s, t, W)
            return
        I.add(L.enum_facts(E, s.C), L.enum_facts(t.U, t.N))
        prove_all(I, 'exactly the kept columns stay unknown',
                  lambda i: Implies(rng(i, s.N), (t.v(i) == -1) == And(s.v(i) == -1, zb(E.m(s.U.cnt(i))))),
                  lambda i: [L.enum_idx(s.U, s.N, i)] + scatter_at(I, i), pat=lambda i: [s.U.cnt(i)])
        I.add(L.compose(s.U, E, t.U, s.N))
        I.prove('kept columns', And(t.C == E.cnt(s.C), FA(lambda c: Implies(rng(c, t.C), t.unk(c) == s.unk(E.at(c))))))
        prove_all(I, 'entries of the kept columns', lambda r, c: Implies(And(rng(r, t.R), rng(c, t.C)), And(rng(E.at(c), s.C), t.A(r, c) == s.A(r, E.at(c)))), n=2)
        # sums over the kept columns
        x = lambda c: W(s.unk(c))
        I.prove('total of the kept', total(t, W) == SUM(lambda c: z3.If(zb(E.m(c)), x(c), 0), s.C),
                [L.ext(lambda c: W(t.unk(c)), lambda c: x(E.at(c)), t.C), L.enum_sum(x, E, s.C)])
        prove_all(I, 'rows on the kept', lambda r: Implies(rng(r, s.R), row_sum(t, W, r) == SUM(lambda c: z3.If(zb(E.m(c)), s.A(r, c) * x(c), 0), s.C)),
                  lambda r: [L.ext(lambda c: t.A(r, c) * W(t.unk(c)), lambda c: s.A(r, E.at(c)) * x(E.at(c)), t.C),
                             L.enum_sum(lambda c: s.A(r, c) * x(c), E, s.C)])
        self.shrink(I, s, t, W, E)

    def columns(self, I, s, t):
        E = self.E
        if E is None:
            super().columns(I, s, t)
            return
        nz = lambda c: EX(lambda r: And(rng(r, s.R), s.A(r, c) != 0))
        prove_all(I, 'kept columns are not zero', lambda c: Implies(rng(c, t.C), EX(lambda r: And(rng(r, t.R), t.A(r, c) != 0))),
                  lambda c: [Implies(rng(E.at(c), s.C), nz(E.at(c)))])
        prove_all(I, 'kept columns are different, if they were', lambda c, d: Implies(And(self.dist, 0 <= c, c < d, d < t.C), z3.Not(same_columns(t.A, t.R, c, d))),
                  lambda c, d: [Implies(And(self.dist, 0 <= E.at(c), E.at(c) < E.at(d), E.at(d) < s.C), z3.Not(same_columns(s.A, s.R, E.at(c), E.at(d))))], 2)


    def names(self, I, s, t, W, nm):
        if self.E is None:
            return
        E, Z = self.E, self.Z
        x = lambda c: W(s.unk(c))
        I.prove('the deleted columns have their values: before', Implies(And(nm['Ks'], nm['Ls'], nm['Bs']), Z), self.hints_before(I, s, W))
        I.prove('the deleted columns have their values: afterwards', Implies(nm['Kt'], Z))
        r = I.fresh('r')
        row = self.row_facts(I, s, t, W, r)
        for p, q in (('s', 't'), ('t', 's')):
            P, Q = (s, t) if p == 's' else (t, s)
            of = lambda q: lambda r: Implies(rng(r, q.R), row_sum(q, W, r) == q.b(r))
            I.derive(f'equations {"afterwards" if p == "s" else "before"}, given the deleted values',
                     Implies(And(Z, of(P)(r)), of(Q)(r)), row)
            I.add(Implies(And(Z, nm['L' + p]), nm['L' + q]))
        i = I.fresh('i')
        for g, n, q, q2 in ((nm['Kt'], 'afterwards', t, s), (nm['Ks'], 'before', s, t)):
            I.prove(f'known counts, given the deleted values: {n}', Implies(And(Z, g, rng(i, s.N), q2.v(i) != -1), q2.v(i) == W(i)),
                    [L.enum_idx(s.U, s.N, i), Implies(rng(i, s.N), (t.v(i) == -1) == And(s.v(i) == -1, zb(E.m(s.U.cnt(i))))),
                     Implies(And(rng(s.U.cnt(i), s.C), Z, z3.Not(zb(E.m(s.U.cnt(i))))), x(s.U.cnt(i)) == self.val(s.U.cnt(i))),
                     Implies(And(g, rng(i, s.N), q.v(i) != -1), q.v(i) == W(i))] + scatter_at(I, i))
            I.add(Implies(And(Z, g), FA(lambda i: Implies(And(rng(i, s.N), q2.v(i) != -1), q2.v(i) == W(i)))))
        c = I.fresh('c')
        I.prove('bounds afterwards', Implies(And(nm['Ks'], nm['Ls'], nm['Bs'], rng(c, t.C)), W(t.unk(c)) <= t.bd(c)))
        I.add(Implies(And(nm['Ks'], nm['Ls'], nm['Bs']), nm['Bt']))
        self.bounds_before(I, s, t, W, nm)
        I.prove('bounds before', Implies(And(nm['Kt'], nm['Bt'], rng(c, s.C)), W(s.unk(c)) <= s.bd(c)),
                [L.enum_idx(E, s.C, c), Implies(And(Z, rng(c, s.C), z3.Not(zb(E.m(c)))), x(c) == self.val(c)),
                 Implies(And(nm['Bt'], rng(E.cnt(c), t.C)), W(t.unk(E.cnt(c))) <= t.bd(E.cnt(c)))])
        I.add(Implies(And(nm['Kt'], nm['Bt']), nm['Bs']))

    def row_facts(self, I, s, t, W, r):
        raise NotImplementedError

    def hints_before(self, I, s, W):
        return []

    def bounds_before(self, I, s, t, W, nm):
        pass


@contract('C08', 'C04')
class ZeroInB(Shrink):
    key = 'srg.solver.zero_in_b'
    protected = ('A', 'loc', 'b')

    def before(self, I, q):
        super().before(I, q)
        if q is self.s:
            self.bound_facts(I, q, self.W)

    def bound_facts(self, I, s, W):
        x = lambda c: W(s.unk(c))
        prove_all(I, 'an unknown of a row is at most its right-hand side',
                  lambda r, c: Implies(And(rng(r, s.R), rng(c, s.C), row_sum(s, W, r) == s.b(r), s.A(r, c) != 0), x(c) <= s.b(r)),
                  lambda r, c: [L.term_le(lambda c: s.A(r, c) * x(c), s.C, c)], 2, pat=lambda r, c: [s.A(r, c)])
        Bn = I.ghost.get('bounds now')
        if Bn is None:
            raise Unsupported('bounds are not updated by lower_upper_bound')
        prove_all(I, 'a solution respects the new bounds', lambda c: Implies(And(rng(c, s.C), sol(s, W)), x(c) <= Bn(c)))

    def val(self, c):
        return z3.IntVal(0)

    def shrink(self, I, s, t, W, E):
        x = lambda c: W(s.unk(c))
        self.bound_facts(I, s, W)
        Z = self.Z = name_b(I, FA(lambda c: Implies(And(rng(c, s.C), z3.Not(zb(E.m(c)))), x(c) == 0)))
        prove_all(I, 'a deleted column is zero in every solution before', lambda c: Implies(And(rng(c, s.C), z3.Not(zb(E.m(c))), sol(s, W)), x(c) == 0))
        prove_all(I, 'and afterwards', lambda c: Implies(And(rng(c, s.C), z3.Not(zb(E.m(c))), known(t, W)), x(c) == 0),
                  lambda c: [Implies(rng(s.unk(c), s.N), And((t.v(s.unk(c)) == -1) == And(s.v(s.unk(c)) == -1, zb(E.m(s.U.cnt(s.unk(c))))),
                                                            Implies(And(known(t, W), t.v(s.unk(c)) != -1), t.v(s.unk(c)) == x(c))))] + scatter_at(I, s.unk(c)))
        prove_all(I, 'rows, if the deleted are zero', lambda r: Implies(And(rng(r, s.R), Z), row_sum(t, W, r) == row_sum(s, W, r)),
                  lambda r: [L.ext(lambda c: z3.If(zb(E.m(c)), s.A(r, c) * x(c), 0), lambda c: s.A(r, c) * x(c), s.C)])
        I.prove('total, if the deleted are zero', Implies(Z, total(t, W) == total(s, W)),
                [L.ext(lambda c: z3.If(zb(E.m(c)), x(c), 0), x, s.C)])

    def row_facts(self, I, s, t, W, r):
        return [t.R == s.R, Implies(rng(r, s.R), t.b(r) == s.b(r)), Implies(And(rng(r, s.R), self.Z), row_sum(t, W, r) == row_sum(s, W, r))]


def name_b(I, f):
    c = I.fresh('nb', BOOL)
    I.add(c == f)
    return c


@contract('C08', 'C04')
class OnlyOne(Shrink):
    key = 'srg.solver.only_1_element_in_row'
    protected = ('A', 'loc', 'bounds')

    def args(self, I):
        a = super().args(I)
        I.hint_fn = prefix_hints
        return a

    def lonely(self, I, s, W):
        """the unknown of a listed column is alone in the listed row"""
        if getattr(I, 'lonely_done', None) is I.assume:
            return
        I.lonely_done = I.assume
        x = lambda c: W(s.unk(c))
        if 'pairs' not in I.ghost:
            raise Unsupported('lonely unknowns are not found by one_element_row_locs')
        T, r, c = I.ghost['pairs']
        eq = lambda a, b: z3.simplify(iv(a)).eq(z3.simplify(iv(b)))
        k = z3.Int('_k')
        cs = [q for q, n in I.index_lists if eq(q.at(k), c(k))]
        if not cs:
            raise Unsupported('columns of the lonely unknowns are not an index list')
        cs = cs[0]
        t = I.fresh('all')
        one = And(rng(c(t), s.C), s.A(r(t), c(t)) == 1)
        zero = FA(lambda d: Implies(And(rng(d, s.C), d != c(t)), s.A(r(t), d) == 0), pat=lambda d: [s.A(r(t), d)])
        I.prove('the entry of a lonely unknown is one', Implies(rng(t, T), one))
        I.prove('the others are zero', Implies(rng(t, T), zero))
        I.derive('the row of a lonely unknown', Implies(rng(t, T), row_sum(s, W, r(t)) == x(c(t))), [Implies(rng(t, T), one), Implies(rng(t, T), zero)],
                 [L.point(lambda d: s.A(r(t), d) * x(d), s.C, c(t))])
        I.add(FA(lambda t: Implies(rng(t, T), row_sum(s, W, r(t)) == x(c(t)))))
        ins, w = self.ins, self.w = I.npm.member_pred(I, cs)
        prove_all(I, 'each lonely unknown once', lambda t: Implies(rng(t, T), And(zb(ins(c(t))), iv(w(c(t))) == t)))
        D = lambda d: zb(ins(d))
        given = lambda d: s.b(r(w(d)))               # value of a listed column
        self.D, self.given, self.T = D, given, T
        img = lambda g: L.image(c, T, ins, w, g, s.C)
        I.prove('values of the lonely unknowns, listed by column', SUM(lambda t: s.b(r(t)), T) == SUM(lambda d: z3.If(D(d), given(d), 0), s.C),
                [img(given), L.ext(lambda t: s.b(r(t)), lambda t: given(c(t)), T)])
        prove_all(I, 'their part of a row, listed by column', lambda i: Implies(rng(i, s.R), SUM(lambda t: s.A(i, c(t)) * s.b(r(t)), T)
                                                                                == SUM(lambda d: z3.If(D(d), s.A(i, d) * given(d), 0), s.C)),
                  lambda i: [img(lambda d: s.A(i, d) * given(d)), L.ext(lambda t: s.A(i, c(t)) * s.b(r(t)), lambda t: s.A(i, c(t)) * given(c(t)), T)])
        Z = self.Z = name_b(I, FA(lambda d: Implies(And(rng(d, s.C), D(d)), x(d) == given(d))))
        prove_all(I, 'the equations give the values', lambda d: Implies(And(rng(d, s.C), D(d), lin(s, W)), x(d) == given(d)))
        I.prove('the equations give the values (all)', Implies(lin(s, W), Z))
        I.prove('total of the listed', Implies(Z, SUM(lambda d: z3.If(D(d), given(d), 0), s.C) == SUM(lambda d: z3.If(D(d), x(d), 0), s.C)),
                [L.ext(lambda d: z3.If(D(d), given(d), 0), lambda d: z3.If(D(d), x(d), 0), s.C)])
        prove_all(I, 'rows of the listed', lambda i: Implies(And(rng(i, s.R), Z), SUM(lambda d: z3.If(D(d), s.A(i, d) * given(d), 0), s.C)
                                                             == SUM(lambda d: z3.If(D(d), s.A(i, d) * x(d), 0), s.C)),
                  lambda i: [L.ext(lambda d: z3.If(D(d), s.A(i, d) * given(d), 0), lambda d: z3.If(D(d), s.A(i, d) * x(d), 0), s.C)])
        products = prove_all(I, 'products', lambda i, d: Implies(And(rng(i, s.R), rng(d, s.C)), s.A(i, d) * x(d) >= 0), n=2, pat=lambda i, d: [s.A(i, d)])
        I.prove('listed part of the total', SUM(lambda d: z3.If(D(d), x(d), 0), s.C) <= SUM(x, s.C), [L.mono(lambda d: z3.If(D(d), x(d), 0), x, s.C)])
        i = I.fresh('all')
        part = lambda i: Implies(rng(i, s.R), SUM(lambda d: z3.If(D(d), s.A(i, d) * x(d), 0), s.C) <= row_sum(s, W, i))
        I.derive('listed part of a row', part(i), [products], [L.mono(lambda d: z3.If(D(d), s.A(i, d) * x(d), 0), lambda d: s.A(i, d) * x(d), s.C)])
        I.add(FA(part))

    def val(self, c):
        return self.given(c)

    def before(self, I, q):
        super().before(I, q)
        if q is self.s and I.index_lists:
            self.lonely(I, q, self.W)

    def shrink(self, I, s, t, W, E):
        self.lonely(I, s, W)
        x = lambda c: W(s.unk(c))
        D = self.D
        prove_all(I, 'the deleted columns are the listed', lambda c: Implies(rng(c, s.C), zb(E.m(c)) == z3.Not(D(c))))
        prove_all(I, 'rows: kept and listed part', lambda r: Implies(rng(r, s.R), row_sum(s, W, r) == row_sum(t, W, r) + SUM(lambda d: z3.If(D(d), s.A(r, d) * x(d), 0), s.C)),
                  lambda r: [L.add2(lambda c: z3.If(zb(E.m(c)), s.A(r, c) * x(c), 0), lambda c: z3.If(D(c), s.A(r, c) * x(c), 0), lambda c: s.A(r, c) * x(c), s.C)])
        I.prove('total: kept and listed part', total(s, W) == total(t, W) + SUM(lambda d: z3.If(D(d), x(d), 0), s.C),
                [L.add2(lambda c: z3.If(zb(E.m(c)), x(c), 0), lambda c: z3.If(D(c), x(c), 0), x, s.C)])
        gv = lambda i, u: s.A(i, c(u)) * s.b(r(u))
        T, r, c = I.ghost['pairs']
        prove_all(I, 'products of the listed', lambda i, u: Implies(And(rng(i, s.R), rng(u, T)), gv(i, u) >= 0), n=2, pat=lambda i, u: [s.A(i, c(u))])
        prove_all(I, 'listed parts are not negative', lambda i: Implies(rng(i, s.R), SUM(lambda u: gv(i, u), T) >= 0), lambda i: [L.nonneg(lambda u: gv(i, u), T)])
        prove_all(I, 'right-hand sides afterwards', lambda i: Implies(rng(i, s.R), t.b(i) == s.b(i) - SUM(lambda d: z3.If(D(d), s.A(i, d) * self.given(d), 0), s.C)))
        I.prove('quota afterwards', t.quota == s.quota - SUM(lambda d: z3.If(D(d), self.given(d), 0), s.C))
        prove_all(I, 'values of the listed afterwards', lambda d: Implies(And(rng(d, s.C), D(d)), t.v(s.unk(d)) == self.given(d)),
                  lambda d: scatter_at(I, s.unk(d)))

    def row_facts(self, I, s, t, W, r):
        x = lambda c: W(s.unk(c))
        P = lambda g: SUM(lambda d: z3.If(self.D(d), s.A(r, d) * g(d), 0), s.C)
        return [t.R == s.R, Implies(rng(r, s.R), row_sum(s, W, r) == row_sum(t, W, r) + P(x)),
                Implies(And(rng(r, s.R), self.Z), P(self.given) == P(x)), Implies(rng(r, s.R), t.b(r) == s.b(r) - P(self.given))]


# ------------------------------------------------------------------------------------------------ merging columns
def posed(q):
    """a newly posed question: every column stands for one position, bounds 1, the last equation is the quota"""
    return [('one group per column', And(q.N == q.C, q.len == q.C, FA(lambda i: Implies(rng(i, q.N), And(q.loc(i) == i, q.v(i) == -1)), pat=lambda i: [q.v(i)]),
                                         FA(lambda i: Implies(rng(i, q.N), q.loc(i) == i), pat=lambda i: [q.loc(i)]))),
            ('bounds are 1', FA(lambda c: Implies(rng(c, q.C), q.bd(c) == 1), pat=lambda c: [q.bd(c)])),
            ('the last equation is the quota', And(q.R >= 1, q.quota == q.b(q.R - 1), FA(lambda c: Implies(rng(c, q.C), q.A(q.R - 1, c) == 1), pat=lambda c: [q.A(q.R - 1, c)]))),
            ('equal columns stand next to each other', FA(lambda c, d, e: Implies(And(0 <= c, c < d, d < e, e < q.C, same_columns(q.A, q.R, c, e)), same_columns(q.A, q.R, c, d)), 3))]


def canonical(q, x):
    """ones first within equal columns"""
    return FA(lambda c, d: Implies(And(0 <= c, c < d, d < q.C, same_columns(q.A, q.R, c, d)), x(c) >= x(d)), 2)


@contract('C08', 'C04')
class ReduceCol(Step):
    """two kinds of questions: newly posed ones (mode 0) and ones with pairwise different columns (mode 1)"""
    key = 'srg.solver.reduce_col'
    protected = ('A', 'loc', 'b', 'v', 'bounds')
    any_columns = False

    def args(self, I):
        self.mode = I.choose(2)
        self.G = self.E = None
        self.Es = []
        if self.mode == 1:
            a = super().args(I)
            I.hint_fn = self.prepare
            self.Q = a['Q']
            q = self.s
            I.add(Implies(q.C > 0, EX(lambda r: And(rng(r, q.R), q.A(r, z3.IntVal(0)) != 0))))       # column 0 is not zero
            return a
        I.hint_fn = self.prepare
        R, C = ints(I, 'R', 'C')
        I.add(R >= 1, C >= 0)
        q = self.Q = construct(I, R, C, C)
        s = QS(I, q)
        I.add(L.enum_facts(s.U, s.N))
        for f in wf_shape(s) + wf_vals(s) + posed(s):
            I.add(f[1])
        xf = I.fresh_fn('x', Z, Z)
        x = lambda i: xf(iv(i))
        I.add(FA(lambda i: And(0 <= x(i), x(i) <= 1), pat=lambda i: [x(i)]))
        self.can = I.fresh('nb', BOOL)
        self.canfact = self.can == canonical(s, x)
        I.add(self.canfact)
        for n in self.protected:
            s.stores[n].prot = f'Q.{n}'
        self.s, self.x = s, x
        I.ghost = dict(q=s, xs=[], wv=None)
        return dict(Q=q)

    def start(self, G, n):
        return lambda g: z3.If(g < G.ng, G.mem(g, 0), iv(n))

    def prepare(self, I, name='', goal=None):
        """what the groups and the removal of groups mean, as soon as the code has built them"""
        if I.ghost.get('busy') or I.local is not None or I.generic or I.mute or I.assume_mode:
            return []
        s = self.s
        out = []
        if name.startswith('assert') and is_z(goal):
            for t in ground_apps([goal], 'CNT_'):
                k = REG.decl2mask[t.decl().name()]
                out.append(L.enum_all(Enum(lambda j: k.mask(t.children()[:-1], j)), t.children()[-1]))
            if any(t.decl().name() in REG.decl2sum for t in all_apps([goal])):
                q = QS(I, self.Q)
                out.append(L.closed(lambda i: q.size(i), lambda i: z3.If(i < q.N, q.loc(i), q.len), q.N))
        I.ghost['busy'] = True
        try:
            if self.G is None and any(z3.simplify(iv(g.n)).eq(z3.simplify(s.C)) for g in I.groupings):
                G = self.G = self.groups(I, s)
                if self.mode == 0:
                    I.add(L.enum_all(s.U, s.N))
                    self.consecutive(I, s, G)
                    prove_all(I, 'bounds of a group', lambda g: Implies(rng(g, G.ng), SUM(lambda p: s.bd(G.mem(g, p)), G.size(g)) == G.size(g)),
                              lambda g: [L.closed(lambda p: s.bd(G.mem(g, p)), lambda p: p, G.size(g))])
                else:
                    self.single(I, s, G)
            if self.G is not None:
                for E, n in list(I.deletions1):
                    if not any(E.sym is F.sym for F in self.Es) and z3.simplify(iv(n)).eq(z3.simplify(s.N)):
                        self.Es.append(E)
                        self.removal(I, s, self.G, E)
                        self.E = E
        finally:
            I.ghost['busy'] = False
        return out

    def groups(self, I, s):
        """the groups of equal columns, as built by the code: consecutive"""
        G = [g for g in I.groupings if z3.simplify(iv(g.n)).eq(z3.simplify(s.C))]
        if not G:
            raise Unsupported('columns are not grouped in a dictionary')
        G = G[-1]
        mem, size, gid, pos = G.mem, G.size, G.gid, G.pos
        k0 = z3.IntVal(0)
        same = lambda c, d: same_columns(s.A, s.R, c, d)
        n = s.C
        t = I.fresh('t')
        I.prove('same group, same column', FA(lambda c, d: Implies(And(rng(c, n), rng(d, n)), (iv(G.key(c)) == iv(G.key(d))) == same(c, d)), 2))
        prove_all(I, 'columns of a group', lambda c: Implies(rng(c, n), And(rng(gid(c), G.ng), rng(pos(c), size(gid(c))), mem(gid(c), pos(c)) == c)),
                  pat=lambda c: [gid(c)])
        # same column, same group
        grp = lambda c, d: Implies(And(rng(c, n), rng(d, n), same(c, d)), gid(c) == gid(d))
        prove_all(I, 'equal columns, one group', grp, lambda c, d: [gid(c) == gid(c), gid(d) == gid(d)], 2)
        self.eqfact = prove_all(I, 'one group, equal columns', lambda g, p: Implies(And(rng(g, G.ng), rng(p, size(g))), same(mem(g, 0), mem(g, p))), lambda g, p: [
            Implies(And(rng(g, G.ng), rng(p, size(g))), And(iv(G.key(mem(g, p))) == iv(G.key(mem(g, k0))), rng(mem(g, p), n), rng(mem(g, k0), n)))], 2,
            pat=lambda g, p: [mem(g, p)])
        return G

    def consecutive(self, I, s, G):
        mem, size, gid, pos = G.mem, G.size, G.gid, G.pos
        n = s.C
        same = lambda c, d: same_columns(s.A, s.R, c, d)
        g, p = I.fresh('g'), I.fresh('p')
        ing = rng(g, G.ng)
        e = mem(g, p) + 1
        between = And(ing, 0 <= p, p + 1 < size(g), mem(g, p + 1) > e)
        I.prove('members of a group follow each other', Implies(And(ing, 0 <= p, p + 1 < size(g)), mem(g, p + 1) == e), [
            Implies(And(between, rng(e, n)), And(rng(gid(e), G.ng), mem(gid(e), pos(e)) == e, rng(pos(e), size(gid(e))))),
            Implies(between, And(same(mem(g, 0), mem(g, p + 1)), same(mem(g, 0), mem(g, p)))),
            Implies(And(between, same(mem(g, p), mem(g, p + 1)), mem(g, p + 1) < n, mem(g, p) >= 0), same(mem(g, p), e)),
            Implies(And(between, same(mem(g, p), e)), gid(mem(g, p)) == gid(e)),
            Implies(And(between, gid(e) == g, pos(e) < p), mem(g, pos(e)) < mem(g, p)),
            Implies(And(between, gid(e) == g, pos(e) > p + 1), mem(g, pos(e)) > mem(g, p + 1)),
            Implies(And(between, gid(e) == g), Or(pos(e) < p, pos(e) == p, pos(e) == p + 1, pos(e) > p + 1))])
        I.add(FA(lambda g, p: Implies(And(rng(g, G.ng), 0 <= p, p + 1 < size(g)), mem(g, p + 1) == mem(g, p) + 1), 2, pat=lambda g, p: [mem(g, p)]))
        prove_all(I, 'positions of a group', lambda g, p: Implies(And(rng(g, G.ng), rng(p, size(g))), mem(g, p) == mem(g, 0) + p), lambda g, p: [
            L.induct(lambda p: Implies(And(rng(g, G.ng), p < size(g)), mem(g, p) == mem(g, 0) + p), p)], 2, pat=lambda g, p: [mem(g, p)])
        prove_all(I, 'position of a column', lambda c: Implies(rng(c, n), c == mem(gid(c), 0) + pos(c)), pat=lambda c: [gid(c)])
        k0 = z3.IntVal(0)
        I.prove('the first group begins at 0', Implies(G.ng > 0, mem(k0, k0) == 0), [gid(k0) == gid(k0), Implies(rng(gid(k0), G.ng), mem(gid(k0), k0) >= 0),
                                                                              Implies(And(0 < gid(k0), gid(k0) < G.ng), mem(k0, k0) < mem(gid(k0), k0))])
        st = self.start(G, n)
        e = mem(g, 0) + size(g)
        h = gid(e)
        first = lambda g, h: Implies(And(0 <= g, g < h, h < G.ng), mem(g, 0) < mem(h, 0))
        I.prove('the next group begins where a group ends', Implies(rng(g, G.ng), st(g + 1) == e), [
            Implies(rng(g, G.ng), And(size(g) >= 1, mem(g, size(g) - 1) == mem(g, 0) + size(g) - 1, rng(mem(g, size(g) - 1), n))),
            Implies(rng(e, n), And(rng(h, G.ng), e == mem(h, 0) + pos(e), rng(pos(e), size(h)))),
            first(h, g), first(g, h), first(g + 1, h), first(g, g + 1),
            # a group h before g that reaches e would contain the first column of g
            Implies(And(rng(e, n), h < g, rng(mem(g, 0) - mem(h, 0), size(h)), rng(h, G.ng)), And(gid(mem(h, mem(g, 0) - mem(h, 0))) == h,
                    mem(h, mem(g, 0) - mem(h, 0)) == mem(g, 0))), Implies(rng(g, G.ng), gid(mem(g, 0)) == g),
            # the first column of g + 1 inside g
            Implies(And(g + 1 < G.ng, 0 <= g, mem(g + 1, 0) < e), And(mem(g, mem(g + 1, 0) - mem(g, 0)) == mem(g + 1, 0), gid(mem(g, mem(g + 1, 0) - mem(g, 0))) == g)),
            Implies(And(g + 1 < G.ng, 0 <= g), And(gid(mem(g + 1, 0)) == g + 1, rng(mem(g + 1, 0), n)))])
        I.add(FA(lambda g: Implies(rng(g, G.ng), st(g + 1) == mem(g, 0) + size(g)), pat=lambda g: [size(g)]))

    def removal(self, I, s, G, E):
        """the first column of every group is kept"""
        n = s.N
        fl = [f for f in I.flats if z3.simplify(f[4]).eq(z3.simplify(G.ng))]
        if not fl:
            raise Unsupported('the removed columns are not listed group by group')
        if self.mode == 1:
            for sg, of, lc, ln, m, N in fl:
                I.prove('nothing is dropped', N == 0, [L.ext(lambda g: iv(ln(g)), lambda g: z3.IntVal(0), G.ng), L.closed(lambda g: z3.IntVal(0), lambda g: z3.IntVal(0), G.ng)])
            prove_all(I, 'all groups are kept', lambda i: Implies(rng(i, n), zb(E.m(i))))
            I.add(L.enum_all(E, n))
            return
        sg, of, lc, ln, m, N = fl[-1]
        ids = [q for q, d in I.index_lists if z3.simplify(iv(q.n)).eq(z3.simplify(iv(N)))]
        if not ids:
            raise Unsupported('the removed columns are not an index list')
        at = lambda q: s.unk(iv(ids[-1].at(q)))
        prove_all(I, 'a listed column is not the first of its group', lambda q: Implies(rng(q, N), And(rng(at(q), n), at(q) == G.mem(sg(q), 1 + of(q)), G.pos(at(q)) == 1 + of(q))),
                  lambda q: [Implies(rng(q, N), And(rng(sg(q), G.ng), rng(1 + of(q), G.size(sg(q)))))], pat=lambda q: [sg(q)])
        prove_all(I, 'a listed column is dropped', lambda q: Implies(rng(q, N), z3.Not(zb(E.m(at(q))))), pat=lambda q: [sg(q)])
        dropped = lambda i: Implies(And(rng(i, n), G.pos(i) >= 1), z3.Not(zb(E.m(i))))
        prove_all(I, 'the first column of a group is kept', lambda i: Implies(And(rng(i, n), G.pos(i) == 0), zb(E.m(i))), lambda i: [
            Implies(rng(i, n), And(rng(G.gid(i), G.ng), rng(G.pos(i), G.size(G.gid(i))), G.mem(G.gid(i), G.pos(i)) == i))])
        prove_all(I, 'the others are dropped', dropped, lambda i: [
            Implies(rng(i, n), And(rng(G.gid(i), G.ng), rng(G.pos(i), G.size(G.gid(i))), G.mem(G.gid(i), G.pos(i)) == i))] + [
            Implies(And(rng(i, n), G.pos(i) >= 1), And(0 <= lc(G.gid(i), G.pos(i) - 1), lc(G.gid(i), G.pos(i) - 1) < N, sg(lc(G.gid(i), G.pos(i) - 1)) == G.gid(i),
                                                     of(lc(G.gid(i), G.pos(i) - 1)) == G.pos(i) - 1)) for sg, of, lc, ln, m, N in fl])
        prove_all(I, 'kept groups', lambda i: Implies(rng(i, n), zb(E.m(i)) == (G.pos(i) == 0)), lambda i: [
            Implies(rng(i, n), And(rng(G.gid(i), G.ng), rng(G.pos(i), G.size(G.gid(i)))))])
        I.add(L.enum_is(E, lambda g: G.mem(g, 0), G.gid, G.ng, n))
        I.prove('one group of the answer per group of columns', And(E.cnt(n) == G.ng, FA(lambda g: Implies(rng(g, G.ng), E.at(g) == G.mem(g, 0)))))
        I.add(FA(lambda g: Implies(rng(g, G.ng), E.at(g) == G.mem(g, 0)), pat=lambda g: [E.at(g)]))

    def single(self, I, s, G):
        n = s.C
        mem, size, gid, pos = G.mem, G.size, G.gid, G.pos
        g, p = I.fresh('g'), I.fresh('p')
        k0 = z3.IntVal(0)
        here = And(rng(g, G.ng), rng(p, size(g)))
        I.add(Implies(And(0 <= mem(g, k0), mem(g, k0) < mem(g, p), mem(g, p) < n), z3.Not(same_columns(s.A, s.R, mem(g, k0), mem(g, p)))))     # of the assumption
        I.derive('every column is a group', Implies(here, p == 0), [
            Implies(here, same_columns(s.A, s.R, mem(g, k0), mem(g, p))), Implies(And(here, p > 0), mem(g, k0) < mem(g, p)), Implies(here, And(rng(mem(g, k0), n), rng(mem(g, p), n))),
            Implies(And(0 <= mem(g, k0), mem(g, k0) < mem(g, p), mem(g, p) < n), z3.Not(same_columns(s.A, s.R, mem(g, k0), mem(g, p))))])
        I.add(FA(lambda g, p: Implies(And(rng(g, G.ng), rng(p, size(g))), p == 0), 2, pat=lambda g, p: [mem(g, p)]))
        prove_all(I, 'every column is the first of its group', lambda c: Implies(rng(c, n), pos(c) == 0), lambda c: [
            Implies(rng(c, n), And(rng(gid(c), G.ng), rng(pos(c), size(gid(c))), Implies(And(rng(gid(c), G.ng), rng(pos(c), size(gid(c)))), pos(c) == 0)))], pat=lambda c: [pos(c)])
        prove_all(I, 'groups of one column', lambda g: Implies(rng(g, G.ng), size(g) == 1), lambda g: [
            Implies(rng(g, G.ng), size(g) >= 1), Implies(And(rng(g, G.ng), 1 < size(g)), z3.IntVal(1) == 0)], pat=lambda g: [size(g)])
        al = Enum(lambda i: z3.BoolVal(True))
        I.add(L.enum_all(al, n), L.enum_is(al, lambda g: mem(g, 0), gid, G.ng, n))
        I.prove('the groups are the columns', And(G.ng == n, FA(lambda g: Implies(rng(g, n), mem(g, 0) == g))))
        I.add(FA(lambda g: Implies(rng(g, n), mem(g, 0) == g), pat=lambda g: [mem(g, 0)]))
        bd = lambda g: (lambda p: s.bd(mem(g, p)))
        prove_all(I, 'bounds of a group', lambda g: Implies(rng(g, G.ng), SUM(bd(g), G.size(g)) == s.bd(g)),
                  lambda g: [L.step(bd(g), z3.IntVal(0)), SUM(bd(g), z3.IntVal(0)) == 0, SUM(bd(g), z3.IntVal(1)) == SUM(bd(g), z3.IntVal(1))])

    def on_return(self, I, a, r, old):
        if r is not None:
            raise Unsupported('the step returns something')
        t = QS(I, a['Q'])
        self.finished(I, t)
        (self.merged if self.mode == 0 else self.identity)(I, t)
        if self.mode == 0:
            self.rest()

    def merged(self, I, t):
        s, x = self.s, self.x
        n = s.C
        I.add(L.enum_facts(t.U, t.N), L.enum_all(s.U, s.N))
        if not self.changed(s, t):
            T, st, size = s.C, lambda g: g, lambda g: z3.IntVal(1)
            I.prove('at most one column', n <= 1)
        else:
            self.prepare(I)
            G = self.G
            if G is None or self.E is None:
                raise Unsupported('groups of columns')
            T, size = G.ng, G.size
            st = self.start(G, n)
        self.st, self.sz = st, size
        eq = lambda r, c: t.A(r, c) == s.A(r, st(c))
        I.prove('shapes', And(t.shapes, t.R == s.R, t.C == T, t.len == s.len))
        I.prove('groups', And(t.N == T, FA(lambda g: Implies(rng(g, T), And(t.loc(g) == st(g), t.v(g) == -1)), pat=lambda g: [t.loc(g)]),
                              FA(lambda g: Implies(rng(g, T), And(t.loc(g) == st(g), t.v(g) == -1)), pat=lambda g: [t.v(g)])))
        I.add(L.enum_all(t.U, t.N))
        prove_all(I, 'unknowns', lambda g: Implies(rng(g, T), t.unk(g) == g), pat=lambda g: [t.unk(g)])
        prove_all(I, 'sizes', lambda g: Implies(rng(g, T), And(t.size(g) == size(g), size(g) >= 1, st(g) + size(g) == st(g + 1))))
        prove_all(I, 'entries', lambda r, c: Implies(And(rng(r, s.R), rng(c, T)), And(rng(st(c), n), eq(r, c))), n=2, pat=lambda r, c: [t.A(r, c)])
        I.prove('right-hand sides', And(FA(lambda r: Implies(rng(r, s.R), t.b(r) == s.b(r)), pat=lambda r: [t.b(r)]), t.quota == s.quota))
        prove_all(I, 'bounds are the sizes', lambda g: Implies(rng(g, T), t.bd(g) == size(g)), pat=lambda g: [t.bd(g)])
        last = FA(lambda c: Implies(rng(c, t.C), t.A(t.R - 1, c) == 1), pat=lambda c: [t.A(t.R - 1, c)])
        I.prove('the last equation is the quota', And(t.R >= 1, t.quota == t.b(t.R - 1)))
        I.prove('the last equation counts all', last)
        for m, f in wf_shape(t) + wf_loc(t) + wf_vals(t):
            if m == 'no zero column':
                I.derive('afterwards: ' + m, f, [last, t.R >= 1])
            else:
                I.prove('afterwards: ' + m, f)
        if self.changed(s, t):
            prove_all(I, 'afterwards: columns pairwise different', lambda c, d: Implies(And(0 <= c, c < d, d < T), z3.Not(same_columns(t.A, t.R, c, d))), lambda c, d: [
                Implies(And(rng(c, T), rng(d, T), same_columns(s.A, s.R, st(c), st(d))), G.gid(G.mem(c, 0)) == G.gid(G.mem(d, 0))),
                Implies(rng(c, T), G.gid(G.mem(c, 0)) == c), Implies(rng(d, T), G.gid(G.mem(d, 0)) == d)], 2)
        else:
            I.prove('afterwards: columns pairwise different', distinct_columns(t))
        # the ones of x per group
        W = lambda g: SUM(lambda p: x(st(g) + p), size(g))
        g, p, i = I.fresh('g'), I.fresh('p'), I.fresh('row')
        ing = rng(g, T)
        xs = FA(lambda i: And(0 <= x(i), x(i) <= 1), pat=lambda i: [x(i)])
        nxt = Implies(ing, And(st(g) + size(g) == st(g + 1), st(g) >= 0, size(g) >= 1))
        I.prove('a group and the next', nxt)
        I.derive('the ones of a group are not negative', Implies(ing, W(g) >= 0), [xs], [L.nonneg(lambda p: x(st(g) + p), size(g))])
        I.derive('the ones of a group are at most its size', Implies(ing, W(g) <= size(g)), [xs, nxt], [
            L.mono(lambda p: x(st(g) + p), lambda p: z3.IntVal(1), size(g)), L.closed(lambda p: z3.IntVal(1), lambda p: p, size(g))])
        I.derive('the ones of a group are those up to the next less those up to it', Implies(ing, W(g) == SUM(x, st(g + 1)) - SUM(x, st(g))), [nxt], [L.split(x, st(g), size(g))])
        I.add(FA(lambda g: Implies(rng(g, T), And(0 <= W(g), W(g) <= size(g), W(g) == SUM(x, st(g + 1)) - SUM(x, st(g))))))
        one = lambda g: SUM(lambda p: s.A(i, st(g) + p) * x(st(g) + p), size(g))
        F = lambda g: SUM(lambda c: s.A(i, c) * x(c), st(g))
        equal = lambda p: Implies(And(ing, rng(p, size(g)), rng(i, s.R)), s.A(i, st(g) + p) == t.A(i, g))
        if self.changed(s, t):
            row = Implies(And(ing, rng(p, size(g)), rng(i, s.R)), And(G.mem(g, p) == st(g) + p, st(g) == G.mem(g, 0), s.A(i, G.mem(g, 0)) == s.A(i, G.mem(g, p))))
            I.prove('entries in a group', row, [Implies(And(ing, rng(p, size(g))), same_columns(s.A, s.R, G.mem(g, 0), G.mem(g, p)))])
            ent = Implies(And(rng(i, s.R), ing), t.A(i, g) == s.A(i, st(g)))
            I.prove('entries of the kept one', ent)
            I.derive('the columns of a group have the entries of the kept one', equal(p), [row, ent])
        else:
            I.prove('the columns of a group have the entries of the kept one', equal(p))
        I.add(FA(equal))
        I.derive('a row on one group', Implies(And(rng(i, s.R), ing), one(g) == t.A(i, g) * W(g)), [FA(equal)], [
            L.scale(t.A(i, g), lambda p: s.A(i, st(g) + p) * x(st(g) + p), lambda p: x(st(g) + p), size(g))])
        I.add(FA(lambda g: Implies(And(rng(i, s.R), rng(g, T)), one(g) == t.A(i, g) * W(g))))
        I.derive('rows up to a group', Implies(And(rng(i, s.R), ing), F(g + 1) == F(g) + one(g)), [nxt], [L.split(lambda c: s.A(i, c) * x(c), st(g), size(g))])
        I.add(FA(lambda g: Implies(And(rng(i, s.R), rng(g, T)), F(g + 1) == F(g) + one(g))))
        cover = And(st(T) == n, st(z3.IntVal(0)) == 0, T >= 0)
        I.prove('the groups cover the columns', cover)
        step = FA(lambda g: Implies(rng(g, T), F(g + 1) == F(g) + t.A(i, g) * W(g)))
        I.derive('rows group by group', Implies(rng(i, s.R), step), [
            FA(lambda g: Implies(And(rng(i, s.R), rng(g, T)), one(g) == t.A(i, g) * W(g)), pat=lambda g: [one(g)]),
            FA(lambda g: Implies(And(rng(i, s.R), rng(g, T)), F(g + 1) == F(g) + one(g)), pat=lambda g: [one(g)])], [])
        same = FA(lambda g: Implies(rng(g, T), t.unk(g) == g), pat=lambda g: [t.unk(g)])
        I.derive('a row with the unknowns', SUM(lambda g: t.A(i, g) * W(t.unk(g)), T) == SUM(lambda g: t.A(i, g) * W(g), T), [same], [
            L.ext(lambda g: t.A(i, g) * W(t.unk(g)), lambda g: t.A(i, g) * W(g), T)])
        I.derive('an equation holds for x exactly when it holds for the ones per group',
                 Implies(rng(i, s.R), SUM(lambda g: t.A(i, g) * W(t.unk(g)), T) == SUM(lambda c: s.A(i, c) * x(c), n)), [
                     cover, Implies(rng(i, s.R), step), SUM(lambda g: t.A(i, g) * W(t.unk(g)), T) == SUM(lambda g: t.A(i, g) * W(g), T)],
                 [L.closed(lambda g: t.A(i, g) * W(g), F, T), SUM(lambda c: s.A(i, c) * x(c), z3.IntVal(0)) == 0])
        I.add(FA(lambda i: Implies(rng(i, s.R), SUM(lambda g: t.A(i, g) * W(t.unk(g)), T) == SUM(lambda c: s.A(i, c) * x(c), n))))
        self.rest = lambda: self.solutions(I, t, W, T, st, size, same)

    def solutions(self, I, t, W, T, st, size, same):
        """the groups as the callers see them"""
        s, x = self.s, self.x
        n = s.C
        G = self.G if self.changed(s, t) else None
        gid = G.gid if G is not None else lambda c: iv(c)
        prove_all(I, 'groups begin one after the other', lambda g: Implies(And(0 <= g, g + 1 < T), st(g) < st(g + 1)))
        place = lambda c: Implies(rng(c, n), And(rng(gid(c), T), st(gid(c)) <= c, c < st(gid(c)) + size(gid(c))))
        prove_all(I, 'every column is in a group', place, lambda c: [] if G is None else [
            Implies(rng(c, n), And(c == G.mem(gid(c), 0) + G.pos(c), rng(G.pos(c), size(gid(c))), rng(gid(c), T), st(gid(c)) == G.mem(gid(c), 0)))],
            pat=lambda c: [gid(c)] if G is not None else [s.bd(c)])
        g, p, q = I.fresh('g'), I.fresh('p'), I.fresh('q')
        back = Implies(And(rng(g, T), rng(p, size(g))), gid(st(g) + p) == g)
        I.prove('the columns of a group are in it', back, [] if G is None else [Implies(And(rng(g, T), rng(p, size(g))), And(G.mem(g, p) == st(g) + p, G.gid(G.mem(g, p)) == g))])
        prove_all(I, 'equal columns are in one group', lambda c, d: Implies(And(rng(c, n), rng(d, n), same_columns(s.A, s.R, c, d)), gid(c) == gid(d)), n=2)
        # ones first
        here = And(rng(g, T), 0 <= p, p < q, q < size(g))
        one = lambda p: x(st(g) + p)
        eqc = Implies(here, And(st(g) + p < st(g) + q, st(g) >= 0, st(g) + q < n, same_columns(s.A, s.R, st(g) + p, st(g) + q)))
        if G is None:
            I.prove('columns of a group are equal', eqc)
        else:
            k0 = z3.IntVal(0)
            like = lambda r: Implies(And(rng(g, T), rng(r, size(g))), And(st(g) >= 0, rng(st(g) + r, n), same_columns(s.A, s.R, G.mem(g, k0), st(g) + r)))
            mem = lambda r: Implies(And(rng(g, T), rng(r, size(g))), And(G.mem(g, r) == st(g) + r, rng(G.mem(g, r), n), st(g) == G.mem(g, k0), G.mem(g, k0) >= 0))
            I.prove('members of a group', mem(p))
            eqm = Implies(And(rng(g, T), rng(p, size(g))), same_columns(s.A, s.R, G.mem(g, k0), G.mem(g, p)))
            I.derive('members of a group are equal', eqm, [self.eqfact])
            I.derive('columns of a group are equal to its first', like(p), [mem(p), eqm])
            I.derive('columns of a group are equal to its first (second column)', like(q), [mem(q), self.eqfact])
            I.derive('columns of a group are equal', eqc, [like(p), like(q)])
        I.derive('ones first in a group', Implies(And(self.can, here), one(p) >= one(q)), [
            eqc, self.canfact], [Implies(FA(lambda c, d: Implies(And(0 <= c, c < d, d < n, same_columns(s.A, s.R, c, d)), x(c) >= x(d)), 2),
                                         Implies(And(0 <= st(g) + p, st(g) + p < st(g) + q, st(g) + q < n, same_columns(s.A, s.R, st(g) + p, st(g) + q)), one(p) >= one(q)))])
        ones = FA(lambda p, q: Implies(And(self.can, rng(g, T), 0 <= p, p < q, q < size(g)), one(p) >= one(q)), 2, pat=lambda p, q: [one(p), one(q)])
        I.add(ones)
        xs = FA(lambda i: And(0 <= x(i), x(i) <= 1), pat=lambda i: [x(i)])
        pair = FA(lambda p: Implies(And(self.can, rng(g, T), 0 <= p, p + 1 < size(g)), one(p) >= one(p + 1)), pat=lambda p: [one(p)])
        I.derive('ones first, neighbours', pair, [ones])
        I.derive('the ones of a group are its first positions', Implies(And(self.can, rng(g, T), rng(p, size(g))), (one(p) == 1) == (p < W(g))), [xs, pair],
                 [L.downto(one, size(g), p)])
        I.add(FA(lambda g, p: Implies(And(self.can, rng(g, T), rng(p, size(g))), (x(st(g) + p) == 1) == (p < W(g))), 2))
        c = I.fresh('c')
        I.derive('ones first', Implies(And(self.can, rng(c, n)), (x(c) == 1) == (c - st(gid(c)) < W(gid(c)))), [place(c)], [
            Implies(And(self.can, rng(gid(c), T), rng(c - st(gid(c)), size(gid(c)))), (x(st(gid(c)) + (c - st(gid(c)))) == 1) == (c - st(gid(c)) < W(gid(c)))),
            st(gid(c)) + (c - st(gid(c))) == c, x(st(gid(c)) + (c - st(gid(c)))) == x(c)])
        # solutions
        lin_x = name_b(I, FA(lambda r: Implies(rng(r, s.R), SUM(lambda c: s.A(r, c) * x(c), s.C) == s.b(r))))
        lin_t = name_b(I, lin(t, W))
        r = I.fresh('r')
        both = Implies(rng(r, s.R), SUM(lambda g: t.A(r, g) * W(t.unk(g)), T) == SUM(lambda c: s.A(r, c) * x(c), n))
        I.prove('equations for x, from those for the groups', Implies(And(lin_t, rng(r, s.R)), SUM(lambda c: s.A(r, c) * x(c), n) == s.b(r)), [both])
        I.add(Implies(lin_t, lin_x))
        I.prove('equations for the groups, from those for x', Implies(And(lin_x, rng(r, t.R)), row_sum(t, W, r) == t.b(r)), [both])
        I.add(Implies(lin_x, lin_t))
        kn, bd = known(t, W), bounded(t, W)
        I.prove('nothing is known', kn)
        I.prove('the ones of a group are within its bound', bd)
        I.derive('afterwards: x solves the equations exactly when its ones per group solve the question', lin_x == And(kn, lin_t, bd),
                 [kn, bd, Implies(lin_t, lin_x), Implies(lin_x, lin_t)])
        last = lambda g: t.A(t.R - 1, g) * W(t.unk(g))
        I.prove('the last equation is the total', SUM(last, t.C) == total(t, W), [L.ext(last, lambda c: W(t.unk(c)), t.C)])
        I.prove('afterwards: the quota follows from the equations', Implies(lin_t, total(t, W) == t.quota), [Implies(lin_t, row_sum(t, W, t.R - 1) == t.b(t.R - 1))])

    def identity(self, I, t):
        s = self.s
        n = s.C
        I.add(L.enum_facts(t.U, t.N))
        if self.changed(s, t):
            self.prepare(I)
            if self.G is None or self.E is None:
                raise Unsupported('groups of columns')
        I.prove('same shapes', And(t.shapes, t.R == s.R, t.C == s.C, t.N == s.N, t.len == s.len))
        I.prove('same groups', FA(lambda i: Implies(rng(i, s.N), And(t.loc(i) == s.loc(i), t.v(i) == s.v(i)))))
        I.prove('same equations', And(FA(lambda r, c: Implies(And(rng(r, s.R), rng(c, s.C)), t.A(r, c) == s.A(r, c)), 2), FA(lambda r: Implies(rng(r, s.R), t.b(r) == s.b(r))),
                                      t.quota == s.quota))
        prove_all(I, 'same bounds', lambda c: Implies(rng(c, s.C), t.bd(c) == s.bd(c)))

    def on_raise(self, I, a, exc, old):
        if exc.cls.name != 'NoSolution':
            I.prove(f'no exception ({exc.cls.name})', False)
            return
        s = self.s
        t = QS(I, a['Q'])
        if self.mode == 1:
            self.identity(I, t)
            W = self.W
            self.before(I, s)
            I.prove('bounds add up as before', SUM(lambda c: t.bd(c), t.C) == SUM(lambda c: s.bd(c), s.C), [L.ext(lambda c: t.bd(c), lambda c: s.bd(c), s.C)])
            I.prove('no solution is reported only if there is none', z3.Not(sol(s, W)))
            return
        x = self.x
        self.merged(I, t)
        W = lambda g: SUM(lambda p: x(self.st(g) + p), self.sz(g))
        diffs = FA(lambda g: Implies(rng(g, t.C), W(g) == SUM(x, self.st(g + 1)) - SUM(x, self.st(g))))
        ends = And(self.st(t.C) == s.C, self.st(z3.IntVal(0)) == 0, t.C >= 0)
        I.prove('the ones of a group again', diffs)
        I.prove('the groups cover the columns again', ends)
        I.derive('the ones add up', SUM(x, s.C) == SUM(W, t.C), [diffs, ends], [L.closed(W, lambda g: SUM(x, self.st(g)), t.C), SUM(x, z3.IntVal(0)) == 0])
        most = FA(lambda g: Implies(rng(g, t.C), W(g) <= t.bd(g)), pat=lambda g: [t.bd(g)])
        I.prove('the ones of a group are at most its bound', most)
        I.derive('at most the bounds', SUM(W, t.C) <= SUM(lambda g: t.bd(g), t.C), [most], [L.mono(W, lambda g: t.bd(g), t.C)])
        last = lambda c: s.A(s.R - 1, c) * x(c)
        I.prove('the last equation counts the ones', SUM(last, s.C) == SUM(x, s.C), [L.ext(last, x, s.C)])
        lin_x = FA(lambda r: Implies(rng(r, s.R), SUM(lambda c: s.A(r, c) * x(c), s.C) == s.b(r)))
        nm = name_b(I, lin_x)
        I.prove('the equations give the number of ones', Implies(nm, SUM(x, s.C) == s.b(s.R - 1)), [Implies(lin_x, SUM(last, s.C) == s.b(s.R - 1))])
        r = I.fresh('r')
        I.prove('an equation without unknowns', Implies(And(nm, s.C == 0, rng(r, s.R)), s.b(r) == 0), [SUM(lambda c: s.A(r, c) * x(c), z3.IntVal(0)) == 0])
        I.add(FA(lambda r: Implies(And(nm, s.C == 0, rng(r, s.R)), s.b(r) == 0), pat=lambda r: [s.b(r)]))
        I.prove('no solution is reported only if there is none', z3.Not(nm))


# ------------------------------------------------------------------------------------------------ fork
@contract('C08', 'C04', 'C07')
class ForkEnum(Step):
    """every solution W of the question is a solution of exactly one of the questions yielded: the one that fixes the forked
    unknown to its value in W; a solution of a yielded question is one of the question.  The questions share nothing that is
    written later with the question forked or with each other"""
    key = 'srg.solver.fork_enum'
    protected = ('A', 'loc', 'b', 'bounds', 'v')
    any_columns = False

    def args(self, I):
        a = super().args(I)
        I.add(self.s.C > 0)
        self.hits = Obj(UserClass('ghost', {}, [], None))
        self.hits.attrs['hits'] = z3.IntVal(0)
        self.nm = {n: name_b(I, f(self.s, self.W)) for n, f in (('K', known), ('L', lin), ('B', bounded))}
        self.sols = And(self.nm['K'], self.nm['L'], self.nm['B'])
        self.where = None
        I.add(L.enum_facts(self.s.U, self.s.N))
        return a

    def at_call(self, I, a):
        import contracts.c04 as c4
        return c4.fork_call(self, I, a)

    def on_return(self, I, a, r, old):
        s, W = self.s, self.W
        if not isinstance(r, GenObj):
            raise Unsupported('the step does not return a generator')
        self.mark0 = Store._n
        I.run_gen(r, lambda v: self.child(I, a, v))
        t = QS(I, a['Q'])
        if self.changed(s, t):
            I.prove('the question is not changed', False)
        total_hits = iv(self.hits.attrs['hits'])
        I.prove('a solution is in exactly one of the branches', total_hits == z3.If(self.sols, 1, 0), self.complete(I, total_hits))

    def complete(self, I, hits):
        """the loop variable at which the value of W comes up"""
        s, W = self.s, self.W
        x = lambda c: W(s.unk(c))
        sums = [t for t in all_apps([hits]) if t.decl().name() in REG.decl2sum]
        out = []
        if self.where is None:
            return out
        m, q = self.where                                  # the forked column; q(j): the value in iteration j
        I.prove('the forked column', rng(m, s.C))
        rest = lambda j: z3.If(j < m, x(j), x(j + 1))
        bnd = lambda j: z3.If(j < m, s.bd(j), s.bd(j + 1))
        I.derive('the other unknowns are within their bounds', Implies(And(rng(m, s.C), self.nm['B']), SUM(rest, s.C - 1) <= SUM(bnd, s.C - 1)),
                 [Implies(self.nm['B'], bounded(s, W))], [L.mono(rest, bnd, s.C - 1)])
        I.derive('they add up to the rest of the quota', Implies(rng(m, s.C), SUM(rest, s.C - 1) == SUM(x, s.C) - x(m)), [], [L.delete1(x, s.C, m)])
        I.prove('value of the forked unknown', Implies(self.sols, And(0 <= x(m), x(m) <= s.bd(m), x(m) <= s.quota, s.quota - SUM(bnd, s.C - 1) <= x(m))), [L.nonneg(rest, s.C - 1)])
        prove_all(I, 'the rows can afford it', lambda r: Implies(And(rng(r, s.R), self.sols), s.A(r, m) * x(m) <= s.b(r)),
                  lambda r: [L.term_le(lambda c: s.A(r, c) * x(c), s.C, m)])
        for w in I.points:                                  # an enumeration that stops at iteration w
            def below(r):
                A, y, z = s.A(r, m), q(w), x(m)
                I.derive('a smaller multiple', Implies(And(A >= 0, y <= z), A * y <= A * z), [])
                return [Implies(And(A >= 0, y <= z), A * y <= A * z)]
            prove_all(I, 'the rows can afford smaller values', lambda r: Implies(And(rng(r, s.R), self.sols, q(w) <= x(m)), s.A(r, m) * q(w) <= s.b(r)),
                      below)
        I.derive('bounds of the other unknowns', Implies(rng(m, s.C), SUM(bnd, s.C - 1) == SUM(s.bd, s.C) - s.bd(m)), [], [L.delete1(s.bd, s.C, m)])
        for t in sums:
            S = REG.decl2sum[t.decl().name()]
            *p, n = t.children()
            f = lambda i: S.at(p, i)
            k = x(m) - q(z3.IntVal(0))
            out += [L.point(f, n, k), L.ext(f, lambda j: z3.IntVal(0), n), L.closed(lambda j: z3.IntVal(0), lambda j: z3.IntVal(0), n)]
        return out

    def child(self, I, a, v):
        s, W = self.s, self.W
        if not isinstance(v, Obj):
            raise Unsupported('yield of something that is not a question')
        if not I.loop_stack or len(I.loop_stack) != 1:
            raise Unsupported('the branches are not made in one loop')
        t = QS(I, v)
        x = lambda c: W(s.unk(c))
        # the forked column: the one left out
        E = next((E for E, n in reversed(I.deletions) if z3.simplify(iv(n)).eq(z3.simplify(s.C))), None)
        if E is None or not I.forked:
            raise Unsupported('the forked column is not removed by np.delete')
        m = iv(I.forked[-1])
        j = I.loop_stack[-1][0]
        um = s.unk(m)
        q = t.v(um)
        self.where = (m, lambda i: z3.substitute(z3.simplify(q), (j, iv(i))))
        I.prove('the forked column', rng(m, s.C))
        I.add(L.enum_facts(t.U, t.N))
        # nothing shared
        mark = I.loop_marks[-1]
        own = [n for n in ('b', 'bounds', 'v') if t.stores[n].id <= mark]
        own += [n for n, o in (('the question', v), ('the answer', I.getattr(v, 'answer'))) if o.no <= I.loop_objs[-1]]
        I.prove('what is written later in one branch belongs to that branch alone' + ''.join(f' ({n} is shared)' for n in own), not own)
        # shape
        I.prove('same groups', And(t.N == s.N, t.len == s.len, FA(lambda i: Implies(rng(i, s.N), t.loc(i) == s.loc(i)))))
        prove_all(I, 'only the forked unknown is set', lambda i: Implies(And(rng(i, s.N), i != um), t.v(i) == s.v(i)))
        I.prove('the forked unknown is set', And(rng(um, s.N), s.v(um) == -1, q >= 0))
        prove_all(I, 'exactly the other columns stay unknown',
                  lambda i: Implies(rng(i, s.N), (t.v(i) == -1) == And(s.v(i) == -1, zb(E.m(s.U.cnt(i))))),
                  lambda i: [L.enum_idx(s.U, s.N, i), L.enum_idx(s.U, s.N, um), Implies(rng(m, s.C), s.U.cnt(um) == m)], pat=lambda i: [s.U.cnt(i)])
        I.add(L.compose(s.U, E, t.U, s.N))
        I.prove('kept columns', And(t.C == s.C - 1, FA(lambda c: Implies(rng(c, t.C), t.unk(c) == s.unk(z3.If(c < m, c, c + 1)))),
                                    ), [])
        for n, f in wf_shape(t):
            I.prove('branch: ' + n, f)
        old = lambda c: z3.If(c < m, c, c + 1)
        prove_all(I, 'entries of the kept columns', lambda r, c: Implies(And(rng(r, t.R), rng(c, t.C)), And(rng(old(c), s.C), t.A(r, c) == s.A(r, old(c)))), n=2)
        prove_all(I, 'bounds of the kept columns', lambda c: Implies(rng(c, t.C), t.bd(c) == s.bd(old(c))))
        prove_all(I, 'right-hand sides', lambda r: Implies(rng(r, s.R), t.b(r) == s.b(r) - s.A(r, m) * q))
        I.prove('quota', And(t.quota == s.quota - q, t.R == s.R))
        nz = lambda c: EX(lambda r: And(rng(r, s.R), s.A(r, c) != 0))
        prove_all(I, 'kept columns are not zero', lambda c: Implies(rng(c, t.C), EX(lambda r: And(rng(r, t.R), t.A(r, c) != 0))),
                  lambda c: [Implies(rng(old(c), s.C), nz(old(c)))])
        for n, f in wf_vals(t):
            I.prove('branch: ' + n, f)
        prove_all(I, 'branch: columns pairwise different', lambda c, d: Implies(And(0 <= c, c < d, d < t.C), z3.Not(same_columns(t.A, t.R, c, d))),
                  lambda c, d: [Implies(And(0 <= old(c), old(c) < old(d), old(d) < s.C), z3.Not(same_columns(s.A, s.R, old(c), old(d))))], 2)
        # sums without the forked column
        I.prove('total of the others', total(t, W) == total(s, W) - x(m),
                [L.ext(lambda c: W(t.unk(c)), lambda c: z3.If(c < m, x(c), x(c + 1)), t.C), L.delete1(x, s.C, m)])
        r = I.fresh('all')
        ent = lambda r: FA(lambda c: Implies(And(rng(r, s.R), rng(c, t.C)), And(t.A(r, c) == s.A(r, old(c)), t.unk(c) == s.unk(old(c)))), pat=lambda c: [t.A(r, c)])
        I.prove('entries of a row', ent(r))
        rows = lambda r: Implies(rng(r, s.R), row_sum(t, W, r) == row_sum(s, W, r) - s.A(r, m) * x(m))
        I.derive('rows of the others', rows(r), [ent(r), t.C == s.C - 1, rng(m, s.C)], [
            L.ext(lambda c: t.A(r, c) * W(t.unk(c)), lambda c: z3.If(c < m, s.A(r, c) * x(c), s.A(r, c + 1) * x(c + 1)), t.C),
            L.delete1(lambda c: s.A(r, c) * x(c), s.C, m)])
        I.add(FA(rows))
        hit = And(x(m) == q, self.sols)
        Kt, Lt, Bt = [name_b(I, f(t, W)) for f in (known, lin, bounded)]
        i = I.fresh('i')
        I.prove('known counts of a branch', Implies(Kt, And(x(m) == q, Implies(And(rng(i, s.N), s.v(i) != -1), s.v(i) == W(i)))),
                [Implies(And(Kt, rng(um, t.N)), Implies(t.v(um) != -1, t.v(um) == W(um)))])
        I.add(Implies(Kt, And(x(m) == q, self.nm['K'])))
        r = I.fresh('r')
        I.prove('equations of a branch', Implies(And(Kt, Lt, rng(r, s.R)), row_sum(s, W, r) == s.b(r)), [Implies(And(Lt, rng(r, s.R)), row_sum(t, W, r) == t.b(r))])
        I.add(Implies(And(Kt, Lt), self.nm['L']))
        c = I.fresh('c')
        I.prove('branch: the quota follows from the equations', Implies(And(Kt, Lt), total(t, W) == t.quota), [implied(s, W)])
        I.prove('bounds of the others', Implies(And(Kt, Bt, rng(c, s.C), c != m), x(c) <= s.bd(c)),
                [Implies(And(Bt, rng(d, t.C)), W(t.unk(d)) <= t.bd(d)) for d in (c, c - 1)])
        I.add(Implies(And(Kt, Bt), FA(lambda c: Implies(And(rng(c, s.C), c != m), x(c) <= s.bd(c)))))
        I.prove('the forked unknown is within its bound', q <= s.bd(m))
        I.prove('bounds of a branch', Implies(And(Kt, Bt, rng(c, s.C)), x(c) <= s.bd(c)), [
            Implies(And(Kt, Bt, rng(c, s.C), c != m), x(c) <= s.bd(c)), Implies(c == m, And(x(c) == x(m), s.bd(c) == s.bd(m)))])
        I.add(Implies(And(Kt, Bt), self.nm['B']))
        I.prove('a solution of a branch is one of the question', Implies(And(Kt, Lt, Bt), hit))
        I.prove('a solution with this value is one of the branch', Implies(hit, And(Kt, Lt, Bt)))
        I.setattr(self.hits, 'hits', norm(self.hits.attrs['hits'] + z3.If(hit, z3.IntVal(1), z3.IntVal(0))))
