from contract import *
from contracts.c16 import ints


@contract('C10')
class PartitionEnum(Contract):
    """enum(s, bounds), proved by induction on the recursion: for an arbitrary tuple y the number of yields equal to y is 1 if
    y is within the bounds and sums to s, otherwise 0; successive yields increase lexicographically"""
    key = 'srg.partition.enum'

    def args(self, I):
        s, l = ints(I, 's', 'l')
        b = I.fresh_fn('bound', Z, Z)
        y = I.fresh_fn('y', Z, Z)
        I.add(l >= 0)
        I.ghost = dict(y=lambda i: y(iv(i)), off=0, l=l, calls=[])
        self.hits = Obj(UserClass('ghost', {}, [], None))
        self.hits.attrs['hits'] = z3.IntVal(0)
        return dict(s=s, bounds=PyList(seq=Seq(l, lambda i: b(iv(i)))))

    def pre(self, I, a):
        b = I.to_seq(a['bounds'])
        return [('s >= 0', iv(a['s']) >= 0), ('at least one bound', iv(b.n) >= 1),
                ('bounds are not negative', FA(lambda i: Implies(rng(i, b.n), iv(b.at(i)) >= 0)))]

    def valid(self, b, y):
        """y within the bounds (the sum is separate)"""
        return FA(lambda i: Implies(rng(i, b.n), And(0 <= y(i), y(i) <= iv(b.at(i)))))

    def on_yield(self, I, a, v, old):
        s, b = iv(a['s']), I.to_seq(a['bounds'])
        if isinstance(v, tuple):
            v = I.to_seq(v)
        if not isinstance(v, Seq):
            raise Unsupported('yield of something that is not a tuple')
        y = I.ghost['y']
        l = iv(b.n)
        I.prove('one entry per bound', iv(v.n) == l)
        hints = [L.split(lambda i: iv(v.at(i)), 1, l - 1), L.step(lambda i: iv(v.at(i)), 0)]
        hints += [L.ext(lambda i: iv(v.at(iv(i) + 1)), lambda i, c=c: iv(c['T'](I.loop_stack[-1][0], i)), l - 1) for c in I.ghost['calls'] if I.loop_stack]
        hints += [SUM(lambda i: iv(v.at(i)), z3.IntVal(1)) == iv(v.at(z3.IntVal(0)))]
        I.prove('entries sum to s', SUM(lambda i: iv(v.at(i)), l) == s, hints)
        I.prove('entries within the bounds', FA(lambda i: Implies(rng(i, l), And(0 <= iv(v.at(i)), iv(v.at(i)) <= iv(b.at(i))))))
        # how often is y produced
        same = FA(lambda i: Implies(rng(i, l), iv(v.at(i)) == y(i)))
        if I.loop_stack and I.ghost['calls']:
            c = I.ghost['calls'][-1]
            j = I.loop_stack[-1][0]
            e = z3.If(iv(v.at(z3.IntVal(0))) == y(z3.IntVal(0)), c['eq'](j), z3.IntVal(0))
        elif not I.loop_stack:
            e = z3.If(iv(v.at(z3.IntVal(0))) == y(z3.IntVal(0)), z3.IntVal(1), z3.IntVal(0))
        else:
            raise Unsupported('yield in a loop that does not call the generator itself')
        i = I.fresh('i')
        I.prove('ghost indicator: same tuple', Implies(e == 1, Implies(rng(i, l), iv(v.at(i)) == y(i))))
        I.prove('ghost indicator: different tuple', Implies(e != 1, And(e == 0, z3.Not(same))), [same == same] + [
            z3.Implies(same, FA(lambda i: Implies(rng(i, l - 1), iv(v.at(i + 1)) == y(i + 1)))),
            z3.Implies(same, iv(v.at(z3.IntVal(0))) == y(z3.IntVal(0)))])
        I.setattr(self.hits, 'hits', norm(self.hits.attrs['hits'] + e))
        # order
        if I.ghost.setdefault('site', I.cur_line) != I.cur_line:
            raise Unsupported('two yield statements on one path')
        increasing(I, v, l, [c['D'] for c in I.ghost['calls']])

    def on_return(self, I, a, r, old):
        s, b = iv(a['s']), I.to_seq(a['bounds'])
        l = iv(b.n)
        y = I.ghost['y']
        V = self.valid(b, y)
        S = SUM(y, l)
        tail = lambda i: y(i + 1)
        hints = [L.split(y, 1, l - 1), SUM(y, z3.IntVal(1)) == y(z3.IntVal(0)),
                 V == And(0 <= y(z3.IntVal(0)), y(z3.IntVal(0)) <= iv(b.at(z3.IntVal(0))),
                          FA(lambda i: Implies(rng(i, l - 1), And(0 <= y(i + 1), y(i + 1) <= iv(b.at(i + 1)))))),
                 z3.Implies(V, L.nonneg(tail, l - 1)), z3.Implies(V, L.mono(tail, lambda i: iv(b.at(i + 1)), l - 1))]
        I.prove('a tuple within the bounds with sum s is produced exactly once, any other tuple never',
                iv(self.hits.attrs['hits']) == z3.If(And(V, S == s), 1, 0), hints)

    def on_raise(self, I, a, exc, old):
        I.prove(f'no exception ({exc.cls.name})', False)

    def at_call(self, I, a):
        s, b = iv(a['s']), I.to_seq(a['bounds'])
        for t in self.pre(I, a):
            I.prove('precondition of the recursive call: ' + t[0], t[1])
        l = I.ghost['l']
        I.prove('the recursion is on a shorter list', iv(b.n) < l)
        I.prove('the recursion is on the tail (ghost)', iv(b.n) == l - 1)
        y = I.ghost['y']
        tail = lambda i: y(iv(i) + 1)
        N = I.fresh('N')
        T, D, eq = I.fresh_fn('T', Z, Z, Z), I.fresh_fn('D', Z, Z, Z), I.fresh_fn('eq', Z, Z)
        m = iv(b.n)
        I.add(N >= 0)
        j, j2, i = [fresh_int('q') for _ in range(3)]
        inj = And(0 <= j, j < N)
        I.add(z3.ForAll([j, i], z3.Implies(And(inj, rng(i, m)), And(0 <= T(j, i), T(j, i) <= iv(b.at(i)))), patterns=[T(j, i)]))
        I.add(z3.ForAll([j], z3.Implies(inj, SUM(lambda i: T(j, i), m) == s), patterns=[eq(j)]))
        I.add(z3.ForAll([j], z3.Implies(inj, And(Or(eq(j) == 0, eq(j) == 1),
                                                 (eq(j) == 1) == FA(lambda i: Implies(rng(i, m), T(j, i) == tail(i))))), patterns=[eq(j)]))
        I.add(z3.ForAll([j, j2], z3.Implies(And(0 <= j, j < j2, j2 < N), And(
            0 <= D(j, j2), D(j, j2) < m, T(j, D(j, j2)) < T(j2, D(j, j2)), FA(lambda i: Implies(And(0 <= i, i < D(j, j2)), T(j, i) == T(j2, i))))),
            patterns=[D(j, j2)]))
        V = self.valid(b, tail)
        # valid does not depend on the loop: one truth value
        I.add(SUM(lambda j: eq(j), N) == z3.If(And(V, SUM(tail, m) == s), z3.IntVal(1), z3.IntVal(0)))
        I.ghost['calls'].append(dict(T=T, D=D, eq=eq, N=N, m=m))
        return Seq(N, lambda j: Seq(m, lambda i: T(iv(j), iv(i))))


def increasing(I, v, l, Ds):
    """two iterations of the loops around the yield, the earlier one first: the values increase lexicographically"""
    if I.mute:
        return
    for d in range(len(I.loop_stack)):
        g, n, loc, mark, lo = I.loop_stack[d]
        facts = [f for f in I.assume[mark:]]
        ren = rename(facts + [iv(v.at(z3.Int('_i'))), iv(v.n)] + [g], lo, g)
        X = z3.Int('_pos')
        vx = ren(iv(v.at(X)))
        v2 = lambda i: z3.substitute(vx, (X, iv(i)))
        g2 = ren(g)
        old = list(I.assume)
        ctx = old + [ren(f) for f in facts] + [g < g2]
        less = EX(lambda p: And(rng(p, l), iv(v.at(p)) < v2(p), FA(lambda i: Implies(And(0 <= i, i < p), iv(v.at(i)) == v2(i)))))
        # witnesses
        pos = [z3.IntVal(0)]
        gi = I.loop_stack[-1][0]
        pos += [1 + D(gi, ren(gi)) for D in Ds]
        alts = [And(rng(p, l), iv(v.at(p)) < v2(p), FA(lambda i: Implies(And(0 <= i, i < p), iv(v.at(i)) == v2(i)))) for p in pos]
        goal = Or(*alts)
        sv, I.assume = I.assume, ctx
        try:
            if I.local is None or I.local.fresh():
                I.obls.append(Obligation(f'{I.fnname}: increasing lexicographic order (loop {d})@{I.cur_line}', list(ctx), goal, I.fnname))
                I.obls[-1].points = [gi, ren(gi)]
        finally:
            I.assume = sv


def rename(terms, lo, g):
    """a second copy of everything created since symbol number lo"""
    gn = g.decl().name()
    return Lifter(lambda n: sym_number(n) > lo or n == gn, lambda n: n + "'")
