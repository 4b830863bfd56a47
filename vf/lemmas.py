"""Lemma instances over SUM / Enum, and the inductive proofs of the general lemmas they are instances of."""
import z3
from core import *

_w = [0]


def wit(p='w'):
    _w[0] += 1
    return z3.Int(f'{p}!{_w[0]}')


def premise_all(f, n, lo=0):
    """(witness-skolemized negation):  either for all lo <= i < n f(i), or f fails at the witness"""
    w = wit()
    return z3.And(iv(lo) <= w, w < iv(n), z3.Not(zb(f(w))))


# every function returns a valid formula (an instance of the lemma proven in PROOFS under the same name)

def ext(f, g, n):
    """(all i<n: f(i)=g(i)) -> SUM f n = SUM g n"""
    return z3.Or(premise_all(lambda i: iv(f(i)) == iv(g(i)), n), SUM(f, n) == SUM(g, n))


def nonneg(f, n):
    return z3.Or(premise_all(lambda i: iv(f(i)) >= 0, n), SUM(f, n) >= 0)


def mono(f, g, n):
    return z3.Or(premise_all(lambda i: iv(f(i)) <= iv(g(i)), n), SUM(f, n) <= SUM(g, n))


def strict(f, g, n, i):
    """all f<=g, f(i)<g(i) -> SUM f < SUM g"""
    return z3.Implies(z3.And(0 <= i, i < iv(n), iv(f(i)) < iv(g(i))),
                      z3.Or(premise_all(lambda j: iv(f(j)) <= iv(g(j)), n), SUM(f, n) < SUM(g, n)))


def zero_all(f, n, i):
    """all f>=0, SUM f n = 0, 0<=i<n -> f(i) = 0"""
    return z3.Implies(z3.And(0 <= i, i < iv(n)),
                      z3.Or(premise_all(lambda j: iv(f(j)) >= 0, n), SUM(f, n) != 0, iv(f(i)) == 0))


def term_le(f, n, i):
    """all f>=0, 0<=i<n -> f(i) <= SUM f n"""
    return z3.Implies(z3.And(0 <= i, i < iv(n)), z3.Or(premise_all(lambda j: iv(f(j)) >= 0, n), iv(f(i)) <= SUM(f, n)))


def closed(f, F, n):
    """F(0)=0, all i<n F(i+1)=F(i)+f(i), n>=0 -> SUM f n = F(n)"""
    return z3.Implies(z3.And(iv(n) >= 0, iv(F(z3.IntVal(0))) == 0),
                      z3.Or(premise_all(lambda i: iv(F(i + 1)) == iv(F(i)) + iv(f(i)), n), SUM(f, n) == iv(F(iv(n)))))


def induct(P, n):
    """P(0), all 0<=i<n: P(i)->P(i+1), n>=0 |- P(n)"""
    w = wit()
    return z3.Or(z3.Not(zb(P(z3.IntVal(0)))), iv(n) < 0,
                 z3.And(0 <= w, w < iv(n), zb(P(w)), z3.Not(zb(P(w + 1)))), zb(P(iv(n))))


def step(f, n):
    return z3.Implies(iv(n) >= 0, SUM(f, iv(n) + 1) == SUM(f, n) + iv(f(iv(n))))


def split(f, a, b):
    """SUM f (a+b) = SUM f a + SUM (i -> f(a+i)) b"""
    a, b = iv(a), iv(b)
    return z3.Implies(z3.And(a >= 0, b >= 0), SUM(f, a + b) == SUM(f, a) + SUM(lambda i: f(a + i), b))


def delete1(f, n, loc):
    n, loc = iv(n), iv(loc)
    return z3.Implies(z3.And(0 <= loc, loc < n),
                      SUM(lambda j: z3.If(j < loc, iv(f(j)), iv(f(j + 1))), n - 1) == SUM(f, n) - iv(f(loc)))


def enum_sum(f, E, n):
    """sum over the enumerated indices = sum over the masked range"""
    return z3.Implies(iv(n) >= 0, SUM(lambda j: f(E.at(j)), E.cnt(n)) == SUM(lambda i: z3.If(zb(E.m(i)), iv(f(i)), 0), n))


def enum_facts(E, n):
    """what the enumeration means (n >= 0)"""
    n = iv(n)
    j, i = fresh_int('j'), fresh_int('i')
    at = E.at
    return z3.Implies(n >= 0, z3.And(
        E.cnt(n) >= 0, E.cnt(n) <= n,
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < E.cnt(n)),
                                  z3.And(0 <= at(j), at(j) < n, zb(E.m(at(j))), E.cnt(at(j)) == j)), patterns=[at(j)]),
        z3.ForAll([j, i], z3.Implies(z3.And(0 <= j, j < i, i < E.cnt(n)), at(j) < at(i)), patterns=[z3.MultiPattern(at(j), at(i))]),
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, zb(E.m(i))), z3.And(at(E.cnt(i)) == i, 0 <= E.cnt(i), E.cnt(i) < E.cnt(n))),
                  patterns=[E.cnt(i)])))


def enum_idx(E, n, i):
    """the position of index i in the enumeration"""
    n, i = iv(n), iv(i)
    return z3.Implies(z3.And(0 <= i, i < n, zb(E.m(i))), z3.And(E.at(E.cnt(i)) == i, 0 <= E.cnt(i), E.cnt(i) < E.cnt(n)))


def enum_none(E, n):
    """CNT n = 0 <-> no index below n satisfies the mask"""
    n = iv(n)
    return z3.Or(premise_all(lambda i: z3.Not(zb(E.m(i))), n), E.cnt(n) == 0)


def compose(U, E, U2, n):
    """mask of U2 = the indices enumerated by U whose position is enumerated by E: U2 enumerates U.at(E.at(j))"""
    n = iv(n)
    j = fresh_int('j')
    return z3.Implies(n >= 0, z3.Or(
        premise_all(lambda i: zb(U2.m(i)) == z3.And(zb(U.m(i)), zb(E.m(U.cnt(i)))), n),
        z3.And(U2.cnt(n) == E.cnt(U.cnt(n)),
               z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < U2.cnt(n)), U2.at(j) == U.at(E.at(j))), patterns=[U2.at(j)]))))


def skip1(E, k, n):
    """mask j != k (below n): enumerates everything but k"""
    n, k = iv(n), iv(k)
    j = fresh_int('j')
    return z3.Implies(z3.And(0 <= k, k < n), z3.Or(
        premise_all(lambda i: zb(E.m(i)) == (i != k), n),
        z3.And(E.cnt(n) == n - 1,
               z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - 1), E.at(j) == z3.If(j < k, j, j + 1)), patterns=[E.at(j)]))))


def enum_all(E, n):
    """mask true below n: enumerates 0 .. n-1"""
    n = iv(n)
    j = fresh_int('j')
    return z3.Implies(n >= 0, z3.Or(premise_all(lambda i: zb(E.m(i)), n),
                                    z3.And(E.cnt(n) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(E.at(j) == j, E.cnt(j) == j)),
                                                                    patterns=[E.at(j)]))))


def enum_same(E, F, n):
    """masks that agree below n enumerate the same indices"""
    n = iv(n)
    j = fresh_int('j')
    return z3.Implies(n >= 0, z3.Or(premise_all(lambda i: zb(E.m(i)) == zb(F.m(i)), n), z3.And(
        E.cnt(n) == F.cnt(n),
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < E.cnt(n)), E.at(j) == F.at(j)), patterns=[E.at(j)]),
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < E.cnt(n)), E.at(j) == F.at(j)), patterns=[F.at(j)]))))


def enum_is(E, a, w, T, n):
    """a increasing from [0,T) to [0,n), its image (w the inverse) is the mask: E enumerates a(0), a(1), .."""
    T, n = iv(T), iv(n)
    t, t2, i = wit(), wit(), wit()
    j = fresh_int('j')
    return z3.Implies(z3.And(T >= 0, n >= 0), z3.Or(
        z3.And(0 <= t, t < T, z3.Not(z3.And(0 <= iv(a(t)), iv(a(t)) < n, zb(E.m(iv(a(t))))))),
        z3.And(0 <= t2, t2 + 1 < T, iv(a(t2)) >= iv(a(t2 + 1))),
        z3.And(0 <= i, i < n, zb(E.m(i)), z3.Not(z3.And(0 <= iv(w(i)), iv(w(i)) < T, iv(a(iv(w(i)))) == i))),
        z3.And(E.cnt(n) == T, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < T), z3.And(E.at(j) == iv(a(j)), E.cnt(iv(a(j))) == j)), patterns=[E.at(j)]))))


def scale(k, f, g, n):
    """f = k g below n: SUM f = k SUM g"""
    return z3.Or(premise_all(lambda i: iv(f(i)) == iv(k) * iv(g(i)), n), SUM(f, n) == iv(k) * SUM(g, n))


def image(s, T, inset, w, g, n):
    """s injective from [0,T) to [0,n) with image inset (w its inverse): SUM g(s(t)) over T = SUM of g over the image"""
    T, n = iv(T), iv(n)
    t, c = wit(), wit()
    return z3.Implies(z3.And(T >= 0, n >= 0), z3.Or(
        z3.And(0 <= t, t < T, z3.Not(z3.And(0 <= iv(s(t)), iv(s(t)) < n, zb(inset(iv(s(t)))), iv(w(iv(s(t)))) == t))),
        z3.And(0 <= c, c < n, zb(inset(c)), z3.Not(z3.And(0 <= iv(w(c)), iv(w(c)) < T, iv(s(iv(w(c)))) == c))),
        SUM(lambda i: g(s(i)), T) == SUM(lambda i: z3.If(zb(inset(i)), iv(g(i)), 0), n)))


def prefix(f, k, n):
    """f >= 0: a shorter sum is not larger"""
    k, n = iv(k), iv(n)
    return z3.Implies(k <= n, z3.Or(premise_all(lambda i: iv(f(i)) >= 0, n), SUM(f, k) <= SUM(f, n)))


def point(f, n, k):
    """f zero outside k: the sum is f(k)"""
    n, k = iv(n), iv(k)
    return z3.Implies(z3.And(0 <= k, k < n), z3.Or(premise_all(lambda i: z3.Or(i == k, iv(f(i)) == 0), n), SUM(f, n) == iv(f(k))))


def downto(f, n, p):
    """f 0/1, first the ones: f(p) = 1 exactly for p < SUM f"""
    n, p = iv(n), iv(p)
    return z3.Implies(z3.And(0 <= p, p < n), z3.Or(
        premise_all(lambda i: z3.Or(iv(f(i)) == 0, iv(f(i)) == 1), n), premise_all(lambda i: iv(f(i)) >= iv(f(i + 1)), n - 1),
        z3.And((iv(f(p)) == 1) == (p < SUM(f, n)), SUM(f, n) <= n)))


def increasing(a, T, i, j):
    """a(t) < a(t + 1) below T: a(i) < a(j) for i < j"""
    T, i, j = iv(T), iv(i), iv(j)
    return z3.Implies(z3.And(0 <= i, i < j, j < T), z3.Or(premise_all(lambda t: iv(a(t)) < iv(a(t + 1)), T - 1), iv(a(i)) < iv(a(j))))


def slope(a, T, i):
    """a(t) < a(t + 1) below T: a(i) >= a(0) + i"""
    T, i = iv(T), iv(i)
    return z3.Implies(z3.And(0 <= i, i < T), z3.Or(premise_all(lambda t: iv(a(t)) < iv(a(t + 1)), T - 1), iv(a(i)) >= iv(a(z3.IntVal(0))) + i))


def least(P, n, w):
    """P fails below n, or w (a fresh constant) is the least place where it holds"""
    n = iv(n)
    i = fresh_int('q')
    no = lambda m: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Not(zb(P(i)))))
    return z3.Or(no(n), z3.And(0 <= w, w < n, zb(P(w)), no(w)))


def add2(f, g, h, n):
    """h = f + g below n: the sums add up"""
    return z3.Or(premise_all(lambda i: iv(h(i)) == iv(f(i)) + iv(g(i)), n), SUM(h, n) == SUM(f, n) + SUM(g, n))


def mulmono(d, x, y):
    """d>0, x>y -> d*x >= d*y + d"""
    return z3.Implies(z3.And(d > 0, x > y), d * x >= d * y + d)


def rev(f, n):
    """SUM f n = SUM (i -> f(n-1-i)) n"""
    n = iv(n)
    return SUM(f, n) == SUM(lambda i: f(n - 1 - i), n)


def _digits(d, n):
    return premise_all(lambda i: z3.Or(iv(d(i)) == 0, iv(d(i)) == 1), n)


def binbound(d, n):
    """digits 0/1: 0 <= SUM d(i) 2^i < 2^n"""
    S = SUM(lambda i: iv(d(i)) * POW2(iv(i)), n)
    return z3.Implies(iv(n) >= 0, z3.Or(_digits(d, n), z3.And(S >= 0, S < POW2(iv(n)))))


def binuniq(d, e, n):
    """digits 0/1 with equal binary value are equal"""
    S = lambda d: SUM(lambda i: iv(d(i)) * POW2(iv(i)), n)
    j = fresh_int('j')
    return z3.Implies(iv(n) >= 0, z3.Or(_digits(d, n), _digits(e, n), S(d) != S(e),
                                        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < iv(n)), iv(d(j)) == iv(e(j))))))


def binbits(d, n, s):
    """the bits of SUM d(i) 2^i (digits 0/1) are the digits"""
    n, s = iv(n), iv(s)
    S = SUM(lambda i: iv(d(i)) * POW2(iv(i)), n)
    return z3.Implies(z3.And(n >= 0, s >= 0), z3.Or(_digits(d, n), BIT(S, s) == z3.If(s < n, iv(d(s)), 0)))


def bitsub(k, m, s):
    """m a bitwise part of k: the bits of k - m"""
    return z3.Implies(z3.And(0 <= m, 0 <= k, BAND(m, k) == m, s >= 0), z3.And(k - m >= 0, BIT(k - m, s) == BIT(k, s) - BIT(m, s)))


def bitbound(k, n, s):
    """0 <= k < 2^n: bits from n on are 0"""
    return z3.Implies(z3.And(0 <= k, iv(n) >= 0, k < POW2(iv(n)), iv(s) >= iv(n)), BIT(k, iv(s)) == 0)


def shrzero(k, t, s):
    """k >> t = 0: bits from t on are 0"""
    return z3.Implies(z3.And(0 <= k, iv(t) >= 0, SHR(k, iv(t)) == 0, iv(s) >= iv(t)), BIT(k, iv(s)) == 0)


# ---------------------------------------------------------------------------------------------------------------
def axioms_for(formulas):
    """definitions (recursion equations) and pairwise extensionality of the symbols occurring in the formulas"""
    ss, ms = set(), set()
    memo = set()

    stack = list(formulas)
    keep = []
    while True:
        while stack:
            t = stack.pop()
            k = t.get_id()
            if k in memo:
                continue
            memo.add(k)
            keep.append(t)
            if z3.is_quantifier(t):
                stack.append(t.body())
                continue
            if z3.is_app(t):
                d = t.decl().name()
                if d in REG.decl2sum:
                    ss.add(d)
                elif d in REG.decl2mask:
                    ms.add(REG.decl2mask[d].name)
                stack.extend(t.children())
        # bodies may mention further symbols
        new = [REG.decl2sum[d].body for d in ss] + [REG.decl2mask['CNT_' + m].body for m in ms]
        stack = [b for b in new if b.get_id() not in memo]
        if not stack:
            break
    out = []
    S = [REG.decl2sum[d] for d in sorted(ss)]
    n, m = z3.Ints('_n _m')

    def pars(sym, tag):
        return [z3.Const(f'_{tag}{i}', s) for i, s in enumerate(sym.sorts)]
    for s in S:
        p = pars(s, 'p')
        a, b = s.app(p, n), s.app(p, m)
        out.append(z3.ForAll(p + [n], z3.Implies(n <= 0, a == 0), patterns=[a]))
        out.append(z3.ForAll(p + [n, m], z3.Implies(z3.And(m == n + 1, n >= 0), b == a + s.at(p, n)), patterns=[z3.MultiPattern(a, b)]))
    for i, s in enumerate(S):
        for t in S[i:]:
            if s is t and not s.sorts:
                continue
            p, q = pars(s, 'p'), pars(t, 'q')
            w = z3.Function(f'_W_{s.name}_{t.name}', *s.sorts, *t.sorts, I, I)(*p, *q, n)
            a, b = s.app(p, n), t.app(q, n)
            out.append(z3.ForAll(p + q + [n], z3.Or(a == b, z3.And(0 <= w, w < n, s.at(p, w) != t.at(q, w))),
                                 patterns=[z3.MultiPattern(a, b)]))
    M = [REG.decl2mask['CNT_' + x] for x in sorted(ms)]
    for s in M:
        p = pars(s, 'p')
        a, b = s.cnt(*p, n), s.cnt(*p, m)
        out.append(z3.ForAll(p + [n], z3.And(z3.Implies(n <= 0, a == 0), a >= 0, z3.Implies(n >= 0, a <= n)), patterns=[a]))
        out.append(z3.ForAll(p + [n, m], z3.Implies(z3.And(m == n + 1, n >= 0), b == a + z3.If(s.mask(p, n), 1, 0)),
                             patterns=[z3.MultiPattern(a, b)]))
        out.append(z3.ForAll(p + [n, m], z3.Implies(z3.And(0 <= n, n <= m), a <= b), patterns=[z3.MultiPattern(a, b)]))
        j, j2 = z3.Ints('_j _j2')
        at, at2 = s.at_(*p, j), s.at_(*p, j2)
        out.append(z3.ForAll(p + [j, n], z3.Implies(z3.And(0 <= j, j < a), z3.And(0 <= at, at < n, s.mask(p, at), s.cnt(*p, at) == j)),
                             patterns=[z3.MultiPattern(at, a)]))
        out.append(z3.ForAll(p + [n], z3.Implies(z3.And(n >= 0, s.mask(p, n)), s.at_(*p, a) == n), patterns=[a]))
        out.append(z3.ForAll(p + [n, m], z3.Implies(z3.And(0 <= n, n < m, s.mask(p, n)), a < b), patterns=[z3.MultiPattern(a, b)]))
    for i, s in enumerate(M):
        for t in M[i:]:
            if s is t and not s.sorts:
                continue
            p, q = pars(s, 'p'), pars(t, 'q')
            w = z3.Function(f'_WM_{s.name}_{t.name}', *s.sorts, *t.sorts, I, I)(*p, *q, n)
            a, b = s.cnt(*p, n), t.cnt(*q, n)
            out.append(z3.ForAll(p + q + [n], z3.Or(a == b, z3.And(0 <= w, w < n, s.mask(p, w) != t.mask(q, w))),
                                 patterns=[z3.MultiPattern(a, b)]))
    return out


# ---------------------------------------------------------------------------------------------------------------
# proofs of the general lemmas by induction; f, g, F uninterpreted

def proofs():
    f, g, F = (z3.Function(x, I, I) for x in ('f', 'g', 'F'))
    mk = z3.Function('mk', I, BOOL)
    Sf, Sg, Sh = (z3.Function(x, I, I) for x in ('Sf', 'Sg', 'Sh'))
    C, AT = z3.Function('C', I, I), z3.Function('AT', I, I)
    n, a, b, i, j, w = z3.Ints('n a b i j w')

    def rec(S, body):
        return [S(0) == 0, z3.ForAll([i], z3.Implies(i >= 0, S(i + 1) == S(i) + body(i)), patterns=[S(i)])]

    def al(P, n):
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), P(j)))

    out = []

    def ind(name, ctx, P):
        out.append((name + '/base', ctx, P(z3.IntVal(0))))
        out.append((name + '/step', ctx + [n >= 0, P(n)], P(n + 1)))
    ind('ext', rec(Sf, f) + rec(Sg, g), lambda n: z3.Implies(al(lambda j: f(j) == g(j), n), Sf(n) == Sg(n)))
    ind('nonneg', rec(Sf, f), lambda n: z3.Implies(al(lambda j: f(j) >= 0, n), Sf(n) >= 0))
    ind('mono', rec(Sf, f) + rec(Sg, g), lambda n: z3.Implies(al(lambda j: f(j) <= g(j), n), Sf(n) <= Sg(n)))
    ind('strict', rec(Sf, f) + rec(Sg, g), lambda n: z3.Implies(z3.And(al(lambda j: f(j) <= g(j), n), 0 <= w, w < n, f(w) < g(w)),
                                                                Sf(n) < Sg(n)) if False else
        z3.And(z3.Implies(al(lambda j: f(j) <= g(j), n), Sf(n) <= Sg(n)),
               z3.Implies(z3.And(al(lambda j: f(j) <= g(j), n), 0 <= w, w < n, f(w) < g(w)), Sf(n) < Sg(n))))
    ind('term_le', rec(Sf, f), lambda n: z3.And(z3.Implies(al(lambda j: f(j) >= 0, n), Sf(n) >= 0),
                                               z3.Implies(z3.And(al(lambda j: f(j) >= 0, n), 0 <= w, w < n), f(w) <= Sf(n))))
    out.append(('zero_all/from term_le', [f(w) >= 0, f(w) <= Sf(n), Sf(n) == 0], f(w) == 0))
    ind('closed', rec(Sf, f), lambda n: z3.Implies(z3.And(F(0) == 0, al(lambda j: F(j + 1) == F(j) + f(j), n)), Sf(n) == F(n)))
    ind('split', rec(Sf, f) + [a >= 0] + rec(Sg, lambda i: f(a + i)) + [Sf(a + n + 1) == Sf(a + n) + f(a + n)],
        lambda n: Sf(a + n) == Sf(a) + Sg(n))
    # delete1: for n > a the shortened sum misses exactly f(a)
    h = lambda j: z3.If(j < a, f(j), f(j + 1))
    ind('delete1/prefix', rec(Sf, f) + rec(Sh, h), lambda n: z3.Implies(n <= a, Sh(n) == Sf(n)))
    out.append(('delete1/base', rec(Sf, f) + [a >= 0, Sh(a) == Sf(a), Sf(a + 1) == Sf(a) + f(a)], Sh(a + 1 - 1) == Sf(a + 1) - f(a)))
    out.append(('delete1/step', rec(Sf, f) + rec(Sh, h) + [a >= 0, n > a, Sh(n - 1) == Sf(n) - f(a), Sh(n) == Sh(n - 1) + h(n - 1)],
                Sh(n) == Sf(n + 1) - f(a)))
    # enumeration: AT is any function with AT(C(i)) = i at masked i
    cn = rec(C, lambda i: z3.If(mk(i), 1, 0)) + [z3.ForAll([i], z3.Implies(z3.And(i >= 0, mk(i)), AT(C(i)) == i), patterns=[mk(i)])]
    ind('enum/range', cn, lambda n: z3.And(C(n) >= 0, C(n) <= n))
    ind('enum/inverse', cn + [C(n) >= 0], lambda n: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < C(n)), z3.And(
        0 <= AT(j), AT(j) < n, mk(AT(j)), C(AT(j)) == j)), patterns=[AT(j)]))
    ind('enum/monotone', cn, lambda n: z3.ForAll([a], z3.Implies(z3.And(0 <= a, a <= n), C(a) <= C(n)), patterns=[C(a)]))
    out.append(('enum/strict', cn + [0 <= a, mk(a), C(a + 1) == C(a) + 1, C(a + 1) <= C(n)], C(a) < C(n)))
    out.append(('enum/increasing', cn + [0 <= a, a < b, b < C(n), C(AT(a)) == a, C(AT(b)) == b, 0 <= AT(a), 0 <= AT(b),
                                         z3.Implies(AT(b) <= AT(a), C(AT(b)) <= C(AT(a)))], AT(a) < AT(b)))
    ind('enum_sum', cn + [C(n) >= 0] + rec(Sf, lambda j: f(AT(j))) + rec(Sg, lambda i: z3.If(mk(i), f(i), 0)), lambda n: Sf(C(n)) == Sg(n))
    ind('enum/ext', cn + rec(Sg, lambda i: z3.If(z3.Function('mk2', I, BOOL)(i), 1, 0)),
        lambda n: z3.Implies(al(lambda j: mk(j) == z3.Function('mk2', I, BOOL)(j), n), C(n) == Sg(n)))
    # reversal: the reversed sum of n+1 terms is f(n) followed by the reversed sum of n terms (split), by induction on n
    out.append(('rev/step', [n >= 0, Sf(n + 1) == Sf(n) + f(n), Sg(n + 1) == f(n) + Sh(n), Sh(n) == Sf(n)], Sg(n + 1) == Sf(n + 1)))
    # binary numbers
    p2 = [POW2(0) == 1, z3.ForAll([i], z3.Implies(i >= 0, POW2(i + 1) == 2 * POW2(i)), patterns=[POW2(i)]), POW2(n) >= 1]
    d01 = lambda d: z3.ForAll([i], z3.Or(d(i) == 0, d(i) == 1), patterns=[d(i)])
    ind('pow2/positive', p2[:2], lambda n: POW2(n) >= 1)
    recp = lambda S, d: [S(0) == 0, z3.ForAll([i], z3.Implies(i >= 0, S(i + 1) == S(i) + z3.If(d(i) == 1, POW2(i), 0)), patterns=[S(i)])]
    ind('binbound', p2 + [d01(f)] + recp(Sf, f), lambda n: z3.And(Sf(n) >= 0, Sf(n) < POW2(n)))
    bb = [Sf(n) >= 0, Sf(n) < POW2(n), Sg(n) >= 0, Sg(n) < POW2(n)]
    ind('binuniq', p2 + [d01(f), d01(g)] + recp(Sf, f) + recp(Sg, g) + bb,
        lambda n: z3.Implies(Sf(n) == Sg(n), al(lambda j: f(j) == g(j), n)))
    # bits: SHR(k, s) = k >> s, BIT(k, s) = SHR(k, s) % 2
    k, m, t = z3.Ints('k m t')
    sh = [k >= 0, SHR(k, 0) == k, z3.ForAll([i], z3.Implies(i >= 0, z3.And(SHR(k, i + 1) == SHR(k, i) / 2, BIT(k, i) == SHR(k, i) % 2)), patterns=[SHR(k, i)])]
    ind('shr/positive', sh, lambda n: SHR(k, n) >= 0)
    SB = z3.Function('SB', I, I)
    ind('bits/expand', p2[:2] + sh + [SB(0) == 0, z3.ForAll([i], z3.Implies(i >= 0, SB(i + 1) == SB(i) + BIT(k, i) * POW2(i)), patterns=[SB(i)]),
                                      SHR(k, n) * POW2(n + 1) == 2 * (SHR(k, n) * POW2(n)), SHR(k, n) == 2 * SHR(k, n + 1) + BIT(k, n),
                                      SHR(k, n) * POW2(n) == 2 * (SHR(k, n + 1) * POW2(n)) + BIT(k, n) * POW2(n), POW2(n + 1) == 2 * POW2(n),
                                      SHR(k, n + 1) * POW2(n + 1) == 2 * (SHR(k, n + 1) * POW2(n))],
        lambda n: k == SB(n) + SHR(k, n) * POW2(n))
    out.append(('bits/expand distribute', [SHR(k, n) == 2 * SHR(k, n + 1) + BIT(k, n), POW2(n + 1) == 2 * POW2(n)],
                z3.And(SHR(k, n) * POW2(n) == 2 * (SHR(k, n + 1) * POW2(n)) + BIT(k, n) * POW2(n),
                       SHR(k, n + 1) * POW2(n + 1) == 2 * (SHR(k, n + 1) * POW2(n)), SHR(k, n) * POW2(n + 1) == 2 * (SHR(k, n) * POW2(n)))))
    # 0 <= k < 2^n: nothing is left after n shifts (the expansion, its low part being >= 0 by binbound)
    x1, y1 = z3.Ints('x1 y1')
    out.append(('shr/none left', [x1 >= 1, y1 >= 1], x1 * y1 >= y1))
    out.append(('bits/bound', [k == SB(n) + SHR(k, n) * POW2(n), SB(n) >= 0, SHR(k, n) >= 0, k < POW2(n), POW2(n) >= 1,
                               z3.Implies(SHR(k, n) >= 1, SHR(k, n) * POW2(n) >= POW2(n))], SHR(k, n) == 0))
    ind('bits/above', sh + [t >= 0, SHR(k, t) == 0], lambda n: SHR(k, t + n) == 0)
    out.append(('bits/above bit', [SHR(k, n) == 0, BIT(k, n) == SHR(k, n) % 2], BIT(k, n) == 0))
    # binbits: k = SB(n) (nothing left) is a binary number with digits BIT(k, .), so by binuniq the digits agree
    out.append(('binbits/low', [k == SB(n) + SHR(k, n) * POW2(n), SHR(k, n) == 0, k == Sf(n),
                                z3.Implies(Sf(n) == SB(n), al(lambda j: f(j) == BIT(k, j), n)), 0 <= w, w < n], f(w) == BIT(k, w)))
    # bitsub: m & k = m means BIT(m, .) <= BIT(k, .) (definition of &); the digits BIT(k,.)-BIT(m,.) are 0/1 and make up k - m
    bk, bm = z3.Ints('bk bm')
    out.append(('bitsub/digits', [0 <= bk, bk <= 1, 0 <= bm, bm <= 1, bm == bk * bm], z3.Or(bk - bm == 0, bk - bm == 1)))
    ind('bitsub/sum', rec(Sf, f) + rec(Sg, g) + rec(Sh, lambda i: f(i) - g(i)), lambda n: Sh(n) == Sf(n) - Sg(n))
    d, x, y = z3.Ints('d x y')
    e = z3.Int('e')
    out.append(('mulmono', [d > 0, x == y + 1 + e, e >= 0, d * e >= 0], d * x >= d * y + d))
    out.append(('mulmono/product', [d > 0, e >= 0], d * e >= 0))
    # "all entries satisfy P" under the operations on lists (alls.py); P any property of the positions of the source
    P, pm, qm = z3.Function('P', I, BOOL), z3.Function('pm', I, I), z3.Function('qm', I, I)
    fa = lambda m, f, lo=0: z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < m), f(j)))
    bij = [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= pm(i), pm(i) < n, qm(pm(i)) == i, 0 <= qm(i), qm(i) < n, pm(qm(i)) == i)),
                     patterns=[P(i)])]
    out.append(('all/rearranged', bij + [0 <= w, w < n, fa(n, lambda j: P(pm(j))), P(qm(w)) == P(qm(w)), P(pm(qm(w))) == P(pm(qm(w)))], z3.Implies(
        z3.And(0 <= qm(w), qm(w) < n, pm(qm(w)) == w), P(w))))
    out.append(('all/rearranged back', [z3.Implies(z3.And(0 <= w, w < n), z3.And(0 <= pm(w), pm(w) < n)), 0 <= w, w < n, fa(n, P)], P(pm(w))))
    out.append(('all/removed', [0 <= a, a < n, fa(n - 1, lambda j: P(pm(j))), P(a), 0 <= w, w < n,
                                z3.Implies(w != a, z3.And(0 <= qm(w), qm(w) < n - 1, pm(qm(w)) == w))], P(w)))
    out.append(('all/removed back', [0 <= a, a < n, fa(n, P), 0 <= w, w < n - 1, 0 <= pm(w), pm(w) < n], z3.And(P(a), P(pm(w)))))
    P2 = z3.Function('P2', I, BOOL)
    out.append(('all/concatenated', [a >= 0, b >= 0], fa(a + b, lambda j: z3.If(j < a, P(j), P2(j - a))) == z3.And(fa(a, P), fa(b, P2))))
    out.append(('all/filtered', [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < C(n)), z3.And(0 <= AT(j), AT(j) < n, mk(AT(j)))), patterns=[AT(j)]),
                                 z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, mk(i)), z3.And(0 <= C(i), C(i) < C(n), AT(C(i)) == i)), patterns=[mk(i)])],
                fa(C(n), lambda j: P(AT(j))) == fa(n, lambda j: z3.Implies(mk(j), P(j)))))

    # composition of two enumerations: U2 masks the indices of U whose position is masked by E
    CU, CE, C2 = (z3.Function(x, I, I) for x in ('CU', 'CE', 'C2'))
    AU, AE, A2 = (z3.Function(x, I, I) for x in ('AU', 'AE', 'A2'))
    mU, mE, m2 = (z3.Function(x, I, BOOL) for x in ('mU', 'mE', 'm2'))
    rc = lambda C, m: rec(C, lambda i: z3.If(m(i), 1, 0))
    ci = rc(CU, mU) + rc(CE, mE) + rc(C2, m2)
    ind('compose/count', ci + [CU(n) >= 0], lambda n: z3.Implies(al(lambda j: m2(j) == z3.And(mU(j), mE(CU(j))), n), C2(n) == CE(CU(n))))
    out.append(('compose/position', [0 <= w, w < C2(n), A2(w) == i, 0 <= i, i < n, m2(i), C2(i) == w, m2(i) == z3.And(mU(i), mE(CU(i))),
                                     C2(i) == CE(CU(i)), z3.Implies(mE(CU(i)), AE(CE(CU(i))) == CU(i)), z3.Implies(mU(i), AU(CU(i)) == i)],
                A2(w) == AU(AE(w))))
    ind('skip1/count', rc(CE, mE) + [a >= 0], lambda n: z3.Implies(al(lambda j: mE(j) == (j != a), n), CE(n) == z3.If(n <= a, n, n - 1)))
    out.append(('skip1/position', [0 <= a, a < n, 0 <= w, w < n - 1, CE(n) == n - 1, 0 <= AE(w), AE(w) < n, mE(AE(w)), mE(AE(w)) == (AE(w) != a),
                                   CE(AE(w)) == w, CE(AE(w)) == z3.If(AE(w) <= a, AE(w), AE(w) - 1)], AE(w) == z3.If(w < a, w, w + 1)))
    ind('enum_all/count', rc(CE, mE), lambda n: z3.Implies(al(lambda j: mE(j), n), CE(n) == n))
    out.append(('enum_all/position', [0 <= w, w < n, mE(w), z3.Implies(mE(w), AE(CE(w)) == w), CE(w) == w], AE(w) == w))
    ind('enum_same/count', rc(CE, mE) + rc(CU, mU), lambda n: z3.Implies(al(lambda j: mE(j) == mU(j), n), CE(n) == CU(n)))
    out.append(('enum_same/position', [0 <= w, w < CE(n), 0 <= AE(w), AE(w) < n, mE(AE(w)), CE(AE(w)) == w, mE(AE(w)) == mU(AE(w)),
                                       CE(AE(w)) == CU(AE(w)), z3.Implies(mU(AE(w)), AU(CU(AE(w))) == AE(w))], AE(w) == AU(w)))
    ind('prefix', rec(Sf, f), lambda n: z3.Implies(z3.And(a <= n, al(lambda j: f(j) >= 0, n), z3.Implies(a <= 0, Sf(a) == 0)), Sf(a) <= Sf(n)))
    ind('point', rec(Sf, f), lambda n: z3.Implies(al(lambda j: z3.Or(j == a, f(j) == 0), n), Sf(n) == z3.If(z3.And(0 <= a, a < n), f(a), 0)))
    ind('add2', rec(Sf, f) + rec(Sg, g) + rec(Sh, F), lambda n: z3.Implies(al(lambda j: F(j) == f(j) + g(j), n), Sh(n) == Sf(n) + Sg(n)))
    # enum_is: the number of enumerated indices below i is the number of a(t) below i
    aa, ww = z3.Function('aa', I, I), z3.Function('ww', I, I)
    t_, u_ = z3.Ints('t u')
    inc1 = z3.ForAll([t_], z3.Implies(z3.And(0 <= t_, t_ + 1 < a), aa(t_) < aa(t_ + 1)), patterns=[aa(t_)])
    ind('enum_is/increasing', [inc1, 0 <= w, w < a], lambda n: z3.Implies(z3.And(w < n, n < a), aa(w) < aa(n)))
    inc = z3.ForAll([t_, u_], z3.Implies(z3.And(0 <= t_, t_ < u_, u_ < a), aa(t_) < aa(u_)), patterns=[z3.MultiPattern(aa(t_), aa(u_))])
    Pn = lambda n: z3.And(0 <= CE(n), CE(n) <= a, z3.ForAll([t_], z3.Implies(z3.And(0 <= t_, t_ < a), (aa(t_) < n) == (t_ < CE(n))), patterns=[aa(t_)]))
    good = lambda i: z3.Implies(mE(i), z3.And(0 <= ww(i), ww(i) < a, aa(ww(i)) == i))
    msk = z3.ForAll([t_], z3.Implies(z3.And(0 <= t_, t_ < a), z3.And(0 <= aa(t_), mE(aa(t_)))), patterns=[aa(t_)])
    out.append(('enum_is/base', [a >= 0, inc, msk, CE(0) == 0], Pn(z3.IntVal(0))))
    out.append(('enum_is/step', [a >= 0, inc, msk, n >= 0, good(n), CE(n + 1) == CE(n) + z3.If(mE(n), 1, 0), Pn(n), aa(CE(n)) == aa(CE(n))], Pn(n + 1)))
    out.append(('enum_is/end', [a >= 0, Pn(n), z3.ForAll([t_], z3.Implies(z3.And(0 <= t_, t_ < a), aa(t_) < n), patterns=[aa(t_)]), aa(CE(n)) == aa(CE(n))],
                CE(n) == a))
    out.append(('enum_is/position', [a >= 0, 0 <= w, w < a, inc, Pn(aa(w)), mE(aa(w)), z3.Implies(mE(aa(w)), AE(CE(aa(w))) == aa(w)),
                                     aa(CE(aa(w))) == aa(CE(aa(w)))], z3.And(CE(aa(w)) == w, AE(w) == aa(w))))
    one01 = z3.ForAll([i], z3.Or(f(i) == 0, f(i) == 1), patterns=[f(i)])
    ind('downto', rec(Sf, f) + [one01, f(n) >= 0], lambda n: z3.Implies(al(lambda j: f(j) >= f(j + 1), n - 1), z3.And(
        0 <= Sf(n), Sf(n) <= n, z3.ForAll([t_], z3.Implies(z3.And(0 <= t_, t_ < n), (f(t_) == 1) == (t_ < Sf(n))), patterns=[f(t_)]))))
    ind('slope', [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < a), f(i) < f(i + 1)), patterns=[f(i)])], lambda n: z3.Implies(n < a, f(n) >= f(0) + n))
    ind('least', [], lambda n: z3.Or(al(lambda j: z3.Not(mk(j)), n), z3.Exists([w], z3.And(0 <= w, w < n, mk(w), al(lambda j: z3.Not(mk(j)), w)))))
    k_ = z3.Int('k')
    ind('scale', rec(Sf, f) + rec(Sg, g), lambda n: z3.Implies(al(lambda j: f(j) == k_ * g(j), n), Sf(n) == k_ * Sg(n)))
    # image: F_T(c) = g(c) if inset(c) and w(c) < T, else 0; by induction on T the sum of F_T is the sum of g(s(t)), t < T
    ins_, wv_, s_ = z3.Function('ins', I, BOOL), z3.Function('wv', I, I), z3.Function('s', I, I)
    T_ = z3.Int('T')
    FT = lambda T, c: z3.If(z3.And(ins_(c), wv_(c) < T), g(c), 0)
    good = [z3.Implies(z3.And(0 <= w, w < n, ins_(w)), z3.And(0 <= wv_(w), wv_(w) < a, s_(wv_(w)) == w)),
            0 <= T_, T_ < a, 0 <= s_(T_), s_(T_) < n, ins_(s_(T_)), wv_(s_(T_)) == T_]
    out.append(('image/base', good + [0 <= w, w < n], FT(0, w) == 0))
    out.append(('image/step terms', good + [0 <= w, w < n], FT(T_ + 1, w) == FT(T_, w) + z3.If(w == s_(T_), g(s_(T_)), 0)))
    out.append(('image/step', [Sf(T_ + 1) == Sf(T_) + g(s_(T_)), Sg(n) == Sh(n) + g(s_(T_)), Sh(n) == Sf(T_)], Sg(n) == Sf(T_ + 1)))
    out.append(('image/end', good + [0 <= w, w < n], FT(a, w) == z3.If(ins_(w), g(w), 0)))
    return out


def check_proofs(timeout=20000):
    res = []
    for name, ctx, goal in proofs():
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*ctx)
        s.add(z3.Not(goal))
        res.append((name, str(s.check())))
    return res


if __name__ == '__main__':
    for r in check_proofs():
        print(*r)
