from contract import *
from contracts.c16 import ints


def matrix01(I, a, name):
    A = a[name]
    f = lambda i, j: iv(A.get(i, j))
    return [('at least one row and one column', And(iv(A.shape[0]) >= 1, iv(A.shape[1]) >= 1)),
            ('entries 0/1', FA(lambda i, j: Implies(And(rng(i, A.shape[0]), rng(j, A.shape[1])), Or(f(i, j) == 0, f(i, j) == 1)), 2,
                               pat=lambda i, j: [f(i, j)]))]


def same_col(A, c, d):
    r = z3.Int('row!')
    return z3.ForAll([r], z3.Implies(rng(r, A.shape[0]), iv(A.get(r, c)) == iv(A.get(r, d))))


@contract('C09', 'C08', 'C04')
class Encode(Contract):
    """codes are equal exactly for equal columns"""
    key = 'srg.unique._encode'

    def args(self, I):
        R, C = ints(I, 'R', 'C')
        A = I.fresh_arr((R, C), 'A')
        A.store.prot = 'the matrix'
        return dict(A=A)

    def pre(self, I, a):
        return matrix01(I, a, 'A')

    def result(self, I, a):
        r = I.fresh_arr((a['A'].shape[1],), 'code')
        I.codes = getattr(I, 'codes', []) + [(a['A'], r)]
        return r

    def on_return(self, I, a, r, old):
        A = a['A']
        R, C = iv(A.shape[0]), iv(A.shape[1])
        if isinstance(r, PyList) or isinstance(r, tuple):
            r = I.to_seq(r)
            n, at = iv(r.n), lambda j: iv(r.at(j))
        elif isinstance(r, Arr) and r.ndim == 1:
            n, at = iv(r.shape[0]), lambda j: iv(r.get(j))
        else:
            raise Unsupported('codes are not a vector')
        I.prove('one code per column', n == C)
        f = lambda i, j: iv(A.get(i, j))
        c, d = I.fresh('c'), I.fresh('d')
        I.points += [c, d]
        rc = And(rng(c, C), rng(d, C))
        low = lambda c: (lambda i: f(R - 1 - i, c))            # digit i = entry of row R-1-i
        val = lambda c: SUM(lambda i: low(c)(i) * POW2(i), R)
        hints = []
        for x in (c, d):
            g = lambda i, x=x: low(x)(i) * POW2(i)
            hints += [L.split(g, 1, R - 1), L.step(g, 0), SUM(g, z3.IntVal(1)) == g(z3.IntVal(0)), L.rev(g, R), L.rev(lambda i: g(1 + i), R - 1),
                      POW2(0) == 1, POW2(1) == 2]
        I.prove('a code is the binary number of its column', Implies(rng(c, C), at(c) == val(c)), hints)
        I.add(FA(lambda j: Implies(rng(j, C), at(j) == val(j)), pat=lambda j: [at(j)] if not isinstance(at(j), int) and z3.is_app(at(j)) else None))
        I.add(Implies(rc, And(at(c) == val(c), at(d) == val(d))))
        back = FA(lambda i: Implies(rng(i, R), low(c)(i) == low(d)(i)))
        I.prove('equal codes, equal digits', Implies(And(rc, at(c) == at(d)), back), [L.binuniq(low(c), low(d), R)])
        I.add(Implies(And(rc, at(c) == at(d)), back))
        r0 = I.fresh('r')
        I.prove('equal codes, equal columns', Implies(And(rc, at(c) == at(d), rng(r0, R)), f(r0, c) == f(r0, d)),
                [Implies(And(rc, at(c) == at(d), rng(R - 1 - r0, R)), low(c)(R - 1 - r0) == low(d)(R - 1 - r0))])
        I.prove('equal columns, equal codes', Implies(And(rc, same_col(A, c, d)), at(c) == at(d)),
                [L.ext(lambda i: low(c)(i) * POW2(i), lambda i: low(d)(i) * POW2(i), R)])

    def post(self, I, a, r):
        A = a['A']
        C = iv(A.shape[1])
        return [('codes are equal exactly for equal columns',
                 FA(lambda c, d: Implies(And(rng(c, C), rng(d, C)), (iv(r.get(c)) == iv(r.get(d))) == same_col(A, c, d)), 2))]


@contract('C09')
class Reduce(Contract):
    key = 'srg.unique.reduce'

    def args(self, I):
        R, C = ints(I, 'R', 'C')
        A = I.fresh_arr((R, C), 'A')
        A.store.prot = 'the matrix'
        return dict(A=A)

    def pre(self, I, a):
        return matrix01(I, a, 'A')

    def parts(self, I, r):
        r = I.to_seq(r)
        if conc(r.n) != 3:
            raise Unsupported('reduce does not return three values')
        A1, bd, loc = r.at(0), r.at(1), r.at(2)
        if not (isinstance(A1, Arr) and A1.ndim == 2):
            raise Unsupported('representation of the result')
        vec = []
        for x in (bd, loc):
            if isinstance(x, Arr) and x.ndim == 1:
                vec.append((iv(x.shape[0]), lambda i, x=x: iv(x.get(i))))
            else:
                s = I.to_seq(x)
                vec.append((iv(s.n), lambda i, s=s: iv(s.at(i))))
        return A1, vec[0], vec[1]

    def on_return(self, I, a, r, old):
        A = a['A']
        R, C = iv(A.shape[0]), iv(A.shape[1])
        A1, (nb, bd), (G, loc) = self.parts(I, r)
        f = lambda i, j: iv(A.get(i, j))
        I.prove('one length and one reduced column per position', And(nb == G, iv(A1.shape[0]) == R, iv(A1.shape[1]) == G, G >= 1))
        I.prove('the first run starts at 0', loc(z3.IntVal(0)) == 0)
        I.add(loc(z3.IntVal(0)) == 0, G >= 1, nb == G)
        prove_all(I, 'positions increase', lambda g: Implies(And(0 <= g, g + 1 < G), loc(g) < loc(g + 1)))
        prove_all(I, 'positions are columns', lambda g: Implies(rng(g, G), And(0 <= loc(g), loc(g) < C)))
        enc = [x for p, x in getattr(I, 'codes', []) if p is A]
        g0 = I.fresh('g')
        last, first = name(I, loc(g0 + 1) - 1), name(I, loc(g0 + 1))
        ne = [Implies(And(0 <= g0, g0 + 1 < G), And(rng(last, C), rng(first, C), iv(e.get(last)) != iv(e.get(first)))) for e in enc[:1]]
        for x in ne:
            I.prove('codes differ where a run starts', x)
        prove_all(I, 'a length is the distance to the next run', lambda g: Implies(And(0 <= g, g + 1 < G), bd(g) == loc(g + 1) - loc(g)))
        end = G - 1
        I.prove('the last run ends with the matrix', loc(end) + bd(end) == C,
                [L.closed(lambda g: loc(g + 1) - loc(g), lambda g: loc(iv(g)), end)])
        I.add(loc(end) + bd(end) == C)
        prove_all(I, 'lengths are positive', lambda g: Implies(rng(g, G), bd(g) >= 1))
        r0 = I.fresh('r')
        I.prove('reduced columns are the first columns of the runs', Implies(And(rng(r0, R), rng(g0, G)), iv(A1.get(r0, g0)) == f(r0, loc(g0))))
        # within a run
        nxt = lambda j: Implies(And(0 <= j, j + 1 < C, FA(lambda g: Implies(rng(g, G), loc(g) != j + 1))),
                                FA(lambda r: Implies(rng(r, R), f(r, j) == f(r, j + 1))))
        j = I.fresh('j')
        I.points += [j, j + 1, g0, g0 + 1]
        inside = lambda j, g: And(rng(g, G), loc(g) <= j, j < loc(g) + bd(g))
        g1 = I.fresh('g1')
        I.prove('inside a run no run starts', Implies(And(inside(j, g0), inside(j + 1, g0), rng(g1, G)), loc(g1) != j + 1), self.order(I, loc, G, g0, g1))
        E = FA(lambda j, g, h: Implies(And(inside(j, g), inside(j + 1, g), rng(h, G)), loc(h) != j + 1), 3)
        I.add(E)
        cn = cnt_at(I, j, [iv(loc(g0))])
        H = lambda x, y: [Implies(And(rng(x, C), rng(y, C)), (iv(e.get(x)) == iv(e.get(y))) == same_col(A, x, y)) for e in enc]
        eqc = [iv(e.get(j)) == iv(e.get(j + 1)) for e in enc]
        for q in eqc:
            I.prove('where no run starts, the codes agree', Implies(And(0 <= j, j + 1 < C, *[loc(c + d) != j + 1 for c in cn for d in (0, 1)]), q),
                    [And(*[c == c for c in cn])])
            I.add(Implies(And(0 <= j, j + 1 < C, *[loc(c + d) != j + 1 for c in cn for d in (0, 1)]), q))
        goal = Implies(And(rng(r0, R), 0 <= j, j + 1 < C, FA(lambda g: Implies(rng(g, G), loc(g) != j + 1))), f(r0, j) == f(r0, j + 1))
        starts = [x for c in cn for x in (Implies(rng(c, G), loc(c) != j + 1), Implies(rng(c + 1, G), loc(c + 1) != j + 1))]
        nos = FA(lambda g: Implies(rng(g, G), loc(g) != j + 1))
        if enc:
            ok = And(0 <= j, j + 1 < C, nos)
            I.prove('where no run starts, the codes agree (2)', Implies(ok, eqc[0]), starts and [Implies(nos, And(*starts))] + [
                Implies(0 <= j, And(0 <= c, Implies(c + 1 >= G, True))) for c in []])
            I.derive('where no run starts, the column equals the one before', goal, [Implies(ok, eqc[0])] + H(j, j + 1))
        else:
            I.prove('where no run starts, the column equals the one before', goal)
        I.add(FA(lambda j: nxt(j)))
        I.prove('neighbours within a run are equal', Implies(And(rng(r0, R), inside(j, g0), inside(j + 1, g0)), f(r0, j) == f(r0, j + 1)),
                [nxt(j), And(0 <= g0, g0 < G) == rng(g0, G),
                 Implies(And(inside(j, g0), inside(j + 1, g0)), FA(lambda h: Implies(rng(h, G), loc(h) != j + 1))),
                 Implies(And(rng(g0, G), g0 + 1 < G), loc(g0 + 1) < C)])
        I.add(FA(lambda r, j: Implies(And(rng(r, R), inside(j, g0), inside(j + 1, g0)), f(r, j) == f(r, j + 1)), 2))
        d = I.fresh('d')
        P = lambda t: Implies(And(rng(r0, R), rng(g0, G), t < bd(g0)), f(r0, loc(g0) + t) == f(r0, loc(g0)))
        I.prove('columns of a run are equal to its first', Implies(And(0 <= d, d < bd(g0)), P(d)), [L.induct(P, d)])
        I.points = [loc(g0 + 1) - 1, loc(g0 + 1), g0, g0 + 1]
        goal = Implies(And(0 <= g0, g0 + 1 < G), z3.Not(same_col(A, last, first)))
        if enc:
            I.derive('adjacent runs differ', goal, ne + H(last, first))
        else:
            I.prove('adjacent runs differ', goal)

    def order(self, I, loc, G, g0, g1):
        """loc increases: instances of induction both ways"""
        P = lambda lo: (lambda t: Implies(And(0 <= lo, lo + 1 + t < G), loc(lo) < loc(lo + 1 + t)))
        return [L.induct(P(g0), g1 - g0 - 1), L.induct(P(g1), g0 - g1 - 1)]


@contract('C09')
class Expand(Contract):
    """column c of A is repeated bounds[c] times, in order"""
    key = 'srg.unique.expand'

    def args(self, I):
        R, C = ints(I, 'R', 'C')
        A = I.fresh_arr((R, C), 'A')
        b = I.fresh_arr((C,), 'bounds')
        A.store.prot, b.store.prot = 'the matrix', 'the bounds'
        return dict(A=A, bounds=b)

    def pre(self, I, a):
        A, b = a['A'], a['bounds']
        return [('at least one row and one column', And(iv(A.shape[0]) >= 1, iv(A.shape[1]) >= 1)),
                ('one length per column', iv(b.shape[0]) == iv(A.shape[1])),
                ('lengths are positive', FA(lambda c: Implies(rng(c, A.shape[1]), iv(b.get(c)) >= 1)))]

    def on_return(self, I, a, r, old):
        A, b = a['A'], a['bounds']
        C = iv(A.shape[1])
        if not isinstance(r, Arr) or r.ndim != 2:
            raise Unsupported('representation of the result')
        bd = lambda c: iv(b.get(c))
        I.prove('shape', And(iv(r.shape[0]) == iv(A.shape[0]), iv(r.shape[1]) == SUM(bd, C)))
        c, p, r0 = I.fresh('c'), I.fresh('p'), I.fresh('r')
        I.points = [c, p, r0]
        off = SUM(bd, c)
        locs = [t.decl()(c, p) for t in {t.decl().name(): t for t in some_apps(I, 'fpos')}.values()]
        I.prove('every copy of a column is there', Implies(And(rng(r0, A.shape[0]), rng(c, C), rng(p, bd(c))),
                                                          And(off + p >= 0, off + p < iv(r.shape[1]), iv(r.get(r0, off + p)) == iv(A.get(r0, c)))),
                [pin(t) for t in locs])


def pin(t):
    """mentions t"""
    return t == t + z3.IntVal(0)


def some_apps(I, prefix):
    """applications (possibly with bound variables) of symbols with this prefix in the context"""
    out, st, seen = [], [f for f in I.assume if is_z(f)], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            st.append(t.body())
        elif z3.is_app(t):
            if t.decl().name().startswith(prefix):
                out.append(t)
            st += t.children()
    return out


@lemma('lemma.expand after reduce', 'C09')
def roundtrip(I):
    """from the two contracts alone: expanding the reduced matrix gives back the matrix"""
    R, C, G = ints(I, 'R', 'C', 'G')
    A, A1, E, loc, bd = I.fresh_fn('A', Z, Z, Z), I.fresh_fn('A1', Z, Z, Z), I.fresh_fn('E', Z, Z, Z), I.fresh_fn('loc', Z, Z), I.fresh_fn('bd', Z, Z)
    W = I.fresh('W')
    # what Reduce states
    I.add(R >= 1, C >= 1, G >= 1, loc(0) == 0)
    I.add(FA(lambda g: Implies(And(0 <= g, g + 1 < G), And(loc(g) < loc(g + 1), bd(g) == loc(g + 1) - loc(g))), pat=lambda g: [bd(g)]))
    I.add(loc(G - 1) + bd(G - 1) == C)
    I.add(FA(lambda g: Implies(rng(g, G), And(bd(g) >= 1, 0 <= loc(g), loc(g) < C)), pat=lambda g: [bd(g)]))
    I.add(FA(lambda r, g: Implies(And(rng(r, R), rng(g, G)), A1(r, g) == A(r, loc(g))), 2, pat=lambda r, g: [A1(r, g)]))
    run = assume_all(I, lambda r, g, d: Implies(And(rng(r, R), rng(g, G), rng(d, bd(g))), A(r, loc(g) + d) == A(r, loc(g))), 3)
    # what Expand states for (A1, bd)
    I.add(W == SUM(lambda g: bd(g), G))
    exp = assume_all(I, lambda r, g, p: Implies(And(rng(r, R), rng(g, G), rng(p, bd(g))), E(r, SUM(lambda h: bd(h), g) + p) == A1(r, g)), 3)
    j, g, r = I.fresh('j'), I.fresh('g'), I.fresh('r')
    I.points = [g, j, r]
    off = lambda g: SUM(lambda h: bd(h), g)
    P = lambda t: Implies(t < G, off(t) == loc(t))
    prove_all(I, 'offsets are the positions', lambda g: Implies(rng(g, G), off(g) == loc(g)), lambda g: [L.induct(P, g)])
    I.prove('same width', W == C, [L.step(lambda h: bd(h), G - 1), off(G - 1) == loc(G - 1)])
    inrun = lambda j: EX(lambda g: And(rng(g, G), loc(g) <= j, j < loc(g) + bd(g)))
    I.prove('every column lies in a run', Implies(rng(j, C), inrun(j)), [L.induct(lambda t: Implies(t < C, inrun(t)), j)])
    I.add(Implies(rng(j, C), And(rng(g, G), loc(g) <= j, j < loc(g) + bd(g))))       # g: the run of column j
    p = name(I, j - loc(g))
    exp(r, g, p)
    run(r, g, p)
    I.prove('expanding gives back the matrix', Implies(And(rng(r, R), rng(j, C)), E(r, j) == A(r, j)))
