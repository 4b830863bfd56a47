from contract import *
from contracts.c16 import ints


def upper(f, n, what):
    """what(i, j) for the pairs above the diagonal"""
    return FA(lambda i, j: Implies(And(0 <= i, i < j, j < iv(n)), what(i, j)), 2, pat=lambda i, j: [iv(f(i, j))])


def same(f, g, n):
    return upper(f, n, lambda i, j: iv(f(i, j)) == iv(g(i, j)))


def before(i, j, p, q):
    return z3.Or(i < p, z3.And(i == p, j < q))


def first(f, g, n, p, q):
    """(p, q) is the first pair, read row by row, where f and g differ, and f has the smaller entry there"""
    return And(0 <= p, p < q, q < iv(n), iv(f(p, q)) < iv(g(p, q)),
               FA(lambda i, j: Implies(And(0 <= i, i < j, j < iv(n), before(i, j, p, q)), iv(f(i, j)) == iv(g(i, j))), 2, pat=lambda i, j: [iv(f(i, j))]))


def less(f, g, n):
    return EX(lambda p, q: first(f, g, n, p, q), 2)


def binary(f, n):
    return FA(lambda i, j: Implies(And(rng(i, n), rng(j, n)), Or(iv(f(i, j)) == 0, iv(f(i, j)) == 1)), 2, pat=lambda i, j: [iv(f(i, j))])


@contract('C12')
class Cmp(Contract):
    key = 'srg.sorter._cmp_srg_matrix'

    def args(self, I):
        n, = ints(I, 'n')
        out = {}
        for x in ('ma', 'mb'):
            out[x] = I.fresh_arr((n, n), x)
            out[x].store.prot = x
        return out

    def pre(self, I, a):
        ma, mb = a['ma'], a['mb']
        n = iv(ma.shape[0])
        return [('at least one vertex', n >= 1), ('square, of one size', And(iv(ma.shape[1]) == n, iv(mb.shape[0]) == n, iv(mb.shape[1]) == n)),
                ('0/1 entries', And(binary(ma.get, n), binary(mb.get, n)))]

    def on_return(self, I, a, r, old):
        ma, mb = a['ma'], a['mb']
        n = iv(ma.shape[0])
        f, g = ma.snap(), mb.snap()
        r = iv(r) if scalar(r) else None
        if r is None:
            raise Unsupported('result of the comparison')
        i, j = ints(I, 'i', 'j')
        fl = I.flats
        known = lambda t: z3.Or(t >= 0, t < 0)
        up = And(0 <= i, i < j, j < n)

        def place(i, j, up):
            """where the pair (i, j) is in each flattened matrix: [facts]; the positions are the same in both"""
            ts = [(loc(i, j - i - 1), seg, off, N) for seg, off, loc, _, _, N in fl]
            out = [Implies(up, And(seg(t) == i, off(t) == j - i - 1, 0 <= t, t < N)) for t, seg, off, N in ts]
            return [t for t, *_ in ts], out + [Implies(up, t[0] == ts[0][0]) for t in ts[1:]]
        two = len(fl) == 2
        ts, facts = place(i, j, up)

        def equal_at(t, c):
            """the two flattened matrices agree at position t, under the condition c"""
            e = [h(seg(t), seg(t) + 1 + off(t)) for h, (seg, off, *_) in zip((f, g), fl)]
            return Implies(c, iv(e[0]) == iv(e[1]))
        goal = Implies(And(r == 0, up), iv(f(i, j)) == iv(g(i, j)))
        if two:
            I.derive('zero: no pair above the diagonal differs', goal, facts + [equal_at(ts[0], And(r == 0, 0 <= ts[0], ts[0] < fl[0][5]))])
        else:
            raise Unsupported('the matrices are not flattened')
        # where the comparison stopped: position w of the flattened matrices is the pair (p, q)
        ws = list({t.arg(0).sexpr(): t.arg(0) for t in ground_apps([x for x in I.assume if is_z(x)], 'seg!') if 'fpos!' not in t.sexpr()}.values())
        for nm, x, y, c in (('negative', f, g, r < 0), ('positive', g, f, r > 0)):
            if not I.possible(c):
                I.prove(f'{nm}: not on this path', z3.Not(c))
                continue
            if not two or len(ws) != 1:
                raise Unsupported('no single place where the comparison stops')
            w = ws[0]
            seg, off, loc, ln, _, N = fl[0]
            p, q = seg(w), seg(w) + 1 + off(w)
            H = And(0 <= p, p < q, q < n, loc(p, off(w)) == w)
            I.prove(f'{nm}: the stop is a pair', Implies(c, H))
            t2, facts2 = place(p, q, And(c, 0 <= p, p < q, q < n))
            e = [h(s(w), s(w) + 1 + o(w)) for h, (s, o, *_) in zip((f, g), fl)]
            I.derive(f'{nm}: smaller at the stop', Implies(c, iv(x(p, q)) < iv(y(p, q))), facts2 + [Implies(c, H), z3.Implies(c, iv(e[0]) < iv(e[1]) if x is f else iv(e[0]) > iv(e[1]))])
            M = [L.split(lambda h: iv(ln(h)), i + 1, p - i - 1), L.nonneg(lambda h: iv(ln(i + 1 + h)), p - i - 1), L.step(lambda h: iv(ln(h)), i)]
            cu = And(c, up, before(i, j, p, q))
            I.prove(f'{nm}: earlier pairs come at earlier positions', Implies(cu, ts[0] < w), M)
            I.derive(f'{nm}: earlier pairs are equal', Implies(cu, iv(x(i, j)) == iv(y(i, j))),
                     facts + [Implies(cu, ts[0] < w), equal_at(ts[0], And(c, 0 <= ts[0], ts[0] < w))])

    def at_call(self, I, a):
        for t in self.pre(I, a):
            I.prove(f'precondition of {self.key}: {t[0]}', t[1])
        ma, mb = a['ma'], a['mb']
        n = iv(ma.shape[0])
        f, g = ma.snap(), mb.snap()
        r, p, q = I.fresh('cmp'), I.fresh('p'), I.fresh('q')
        I.add(Implies(r == 0, same(f, g, n)), Implies(r < 0, first(f, g, n, p, q)), Implies(r > 0, first(g, f, n, p, q)))
        I.ghost.setdefault('cmps', []).append((ma, mb, r, p, q))
        return r


@lemma('C12 the comparison is an order', 'C12')
def order(I):
    """drives the real comparison through its contract"""
    n, = ints(I, 'n')
    I.add(n >= 1)
    m = [I.fresh_arr((n, n), x) for x in 'abc']
    for x in m:
        I.add(binary(x.get, n))
    f = I.get('srg.sorter._cmp_srg_matrix')
    a, b, c = m
    ab, ba, bc, ac, aa = [iv(I.call(f, [x, y], {})) for x, y in ((a, b), (b, a), (b, c), (a, c), (a, a))]
    w = [(p, q) for _, _, _, p, q in I.ghost['cmps']]
    fs = [(x.snap(), y.snap()) for x, y in ((a, b), (b, a), (b, c), (a, c), (a, a))]
    at = [And(*[iv(h.get(p, q)) == iv(h.get(p, q)) for h in m]) for p, q in w]
    at = [z3.Or(iv(h.get(p, q)) <= 0, iv(h.get(p, q)) > 0) for h in m for p, q in w]      # terms to instantiate at
    I.prove('a matrix equals itself', aa == 0, at)
    I.prove('antisymmetric', And((ab < 0) == (ba > 0), (ab > 0) == (ba < 0)), at)
    I.prove('transitive', Implies(And(ab <= 0, bc <= 0), ac <= 0), at)
    I.prove('transitive, strictly', Implies(And(ab <= 0, bc < 0), ac < 0), at)
    I.prove('zero exactly for equal matrices', (ab == 0) == same(a.snap(), b.snap(), n), at)


@contract('C12')
class Sort(Contract):
    key = 'srg.sorter.sort'

    def args(self, I):
        n, N = ints(I, 'n', 'N')
        I.add(n >= 1, N >= 0)
        A = I.fresh_fn('A', Z, Z, Z, Z)
        g, i, j = [fresh_int('q') for _ in range(3)]
        I.add(z3.ForAll([g, i, j], Or(A(g, i, j) == 0, A(g, i, j) == 1), patterns=[A(g, i, j)]))
        self.n, self.N, self.A = n, N, A
        def mat(g):
            m = Arr((n, n), lambda i, j: A(iv(g), iv(i), iv(j)), tag={'ghost index': iv(g)})
            m.store.prot = 'a given matrix'
            return m
        sq = self.given = Seq(N, mat)
        lst = PyList(seq=sq)
        lst.prot = 'the given list'
        return dict(lst=lst)

    def on_return(self, I, a, r, old):
        n, N, A = self.n, self.N, self.A
        if not isinstance(r, PyList):
            raise Unsupported('result of sort')
        sq = I.to_seq(r)
        I.prove('as many matrices as given', iv(sq.n) == N)
        t = I.fresh('t')
        I.add(rng(t, N), rng(t, sq.n))
        src = lambda t: sq.at(t).tag.get('ghost index')
        if src(t) is None:
            raise Unsupported('sort builds new matrices')
        # the result is the given list rearranged by a bijection (t -> src t), the inverse being the one of the permutation
        inv, s = [], sq
        while 'perm' in s.tag:
            inv.append(s.tag['perm'][1])
            s = s.tag['perm'][2]
        if s is not self.given:
            raise Unsupported('sort is not a rearrangement by sorted()')
        if not inv:
            I.prove('in the given order (no rearrangement)', src(t) == t)
        else:
            back = lambda x: compose(reversed(inv), x)
            I.prove('every result is a given matrix', And(0 <= src(t), src(t) < N))
            I.prove('every given matrix occurs exactly once', And(0 <= back(t), back(t) < N, src(back(t)) == t, back(src(t)) == t))
        # the order: consecutive results compare as not positive (what sorting by a consistent comparison guarantees)
        x, y = sq.at(t), sq.at(t + 1)
        I.add(t + 1 < N)
        for l, f, rev in I.sorted_by:
            if l is sq:
                c = iv(I.call(f, [y, x] if rev else [x, y], {}))
                I.add(c <= 0)          # sorted() with a total preorder (proved: 'C12 the comparison is an order')
        by = sq.tag.get('sorted')
        if by and by[0] is not None and not any(l is sq for l, _, _ in I.sorted_by):
            raise Unsupported('sorted by a key that is not a comparison')
        ws = [(p, q) for _, _, _, p, q in I.ghost.get('cmps', [])]
        fx, fy = x.snap(), y.snap()
        I.prove('consecutive results are in non-decreasing order', Or(same(fx, fy, n), *[first(fx, fy, n, p, q) for p, q in ws]))


def compose(inv, x):
    for q in inv:
        x = q(x)
    return x

