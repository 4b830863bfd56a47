from contract import *
from contracts.c16 import ints, valid_params
from npm import POW


def disc(k, l, u):
    return (l - u) * (l - u) + 4 * (k - u)


def conf(v, k, l, u):
    return 2 * k + (v - 1) * (l - u)


def rl(x):
    x = iv(x)
    return z3.ToReal(x) if z3.is_int(x) else x


def spectrum(I, v, k, l, u):
    """ghosts: D the root of the discriminant, f the first multiplicity"""
    D, f, r, s = ints(I, 'D', 'f', 'r', 's')
    I.add(valid_params(v, k, l, u))
    I.add(D > 0, D * D == disc(k, l, u), 2 * D * f == D * (v - 1) - conf(v, k, l, u))
    w, q, p = name(I, D - (l - u)), I.fresh('q'), I.fresh('p')
    I.add(w == 2 * q + p, 0 <= p, p <= 1)
    I.derive('the root has the parity of l-u', p == 0, [w * w + 2 * w * (l - u) == 4 * (k - u), w == 2 * q + p, 0 <= p, p <= 1],
             [Implies(p == 1, w * w == 4 * (q * q) + 4 * q + 1), Implies(p == 1, w * (l - u) == 2 * (q * (l - u)) + (l - u))])
    I.add(r == (l - u) + q, s == (l - u) - r)
    I.derive('product of the roots', r * s == u - k, [D * D == disc(k, l, u), 2 * r == (l - u) + D, 2 * s == (l - u) - D],
             [4 * (r * s) == (2 * r) * (2 * s), (2 * r) * (2 * s) == (l - u) * (l - u) - D * D])
    fact = 2 * (D * f) == D * (v - 1) - conf(v, k, l, u)
    I.add(fact)
    I.derive('multiplicities weigh the roots', k + f * r + (v - 1 - f) * s == 0, [2 * r == (l - u) + D, 2 * s == (l - u) - D, fact],
             [2 * (f * r) == f * (l - u) + D * f, 2 * (f * s) == f * (l - u) - D * f, 2 * ((v - 1) * s) == (v - 1) * (l - u) - D * (v - 1),
              (v - 1 - f) * s == (v - 1) * s - f * s])
    return D, f, r, s


@contract('C14')
class Eig(Contract):
    key = 'srg.utils.eig'

    def args(self, I):
        v, k, l, u = ints(I, 'v', 'k', 'l', 'u')
        I.ghost = spectrum(I, v, k, l, u)
        return dict(v=v, k=k, l=l, u=u)

    def pairs(self, I, r):
        q = I.to_seq(r)
        if conc(q.n) != 3:
            raise Unsupported('number of eigenvalues')
        out = []
        for i in range(3):
            p = I.to_seq(q.at(i))
            if conc(p.n) != 2:
                raise Unsupported('eigenvalue and multiplicity')
            out.append((p.at(0), p.at(1)))
        return out

    def on_return(self, I, a, res, old):
        v, k, l, u = a.values()
        D, f, r, s = I.ghost
        ps = self.pairs(I, res)
        sub = []
        c = conf(v, k, l, u)
        roots = {}
        for x in [rl(x) for p in ps for x in p]:
            st = [x]
            while st:
                t = st.pop()
                if z3.is_const(t) and t.decl().name().startswith('isq!'):
                    roots[t.decl().name()] = t
                st += t.children()
        for t in roots.values():
            d2 = disc(k, l, u)
            I.prove('the integer root is taken of the discriminant', And(t >= 0, t * t <= d2, d2 < (t + 1) * (t + 1)))
            I.derive('value of the integer root', t == D, [And(t >= 0, t * t <= d2, d2 < (t + 1) * (t + 1)), D * D == d2, D > 0],
                     [Implies(D >= t + 1, D * D >= (t + 1) * (t + 1)), Implies(D <= t - 1, D * D <= (t - 1) * (t - 1)),
                      (t - 1) * (t - 1) == t * t - 2 * t + 1])
            sub.append((t, D))
        for t in ground_apps([rl(x) for p in ps for x in p], 'SQRT'):
            x = t.arg(0)
            I.prove('the root is taken of the discriminant', x == z3.ToReal(disc(k, l, u)))
            sq = t * t == z3.ToReal(D) * z3.ToReal(D)
            I.derive('square of the root', sq, [x == z3.ToReal(disc(k, l, u)), t * t == x, D * D == disc(k, l, u)],
                     [z3.ToReal(D * D) == z3.ToReal(D) * z3.ToReal(D), z3.ToReal(D * D) == z3.ToReal(disc(k, l, u))])
            y, d = z3.Reals('_y _d')        # (y >= 0, d > 0, y*y = d*d) -> y = d, a fact about reals
            I.derive('equal squares of non-negative reals', z3.Implies(And(y >= 0, d > 0, y * y == d * d), y == d), [])
            I.add(z3.Implies(And(t >= 0, z3.ToReal(D) > 0, sq), t == z3.ToReal(D)))
            I.prove('value of the root', t == z3.ToReal(D))
            sub.append((t, z3.ToReal(D)))
        # quotients by D
        vals = [z3.substitute(rl(x), *sub) if sub else rl(x) for p in ps for x in p]
        seen, st = {}, list(vals)
        while st:
            t = st.pop()
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(z3.simplify(t.arg(1))):
                    seen[t.sexpr()] = t
                st += t.children()
        quo = z3.ToReal(v - 1 - 2 * f)
        divs = []
        for t in seen.values():
            n, d = t.arg(0), t.arg(1)
            I.prove('a quotient of the conference number by the root', And(n == z3.ToReal(c), d == z3.ToReal(D)))
            I.derive('value of the quotient', t == quo, [n == z3.ToReal(c), d == z3.ToReal(D), D > 0, 2 * (D * f) == D * (v - 1) - c],
                     [t * d == n, z3.ToReal(c) == z3.ToReal(D * (v - 1) - 2 * (D * f)), z3.ToReal(D * (v - 1)) == z3.ToReal(D) * z3.ToReal(v - 1),
                      z3.ToReal(D * f) == z3.ToReal(D) * z3.ToReal(f), (t - quo) * d == t * d - quo * d])
            divs.append((t, quo))
        vals = [z3.substitute(x, *divs) if divs else x for x in vals]
        (e0, m0), (e1, m1), (e2, m2) = zip(vals[::2], vals[1::2])
        I.prove('k with multiplicity 1', And(e0 == z3.ToReal(k), m0 == 1))
        R, S = z3.ToReal(r), z3.ToReal(s)
        first = And(e1 == R, m1 == z3.ToReal(f), e2 == S, m2 == z3.ToReal(v - 1 - f))
        second = And(e1 == S, m1 == z3.ToReal(v - 1 - f), e2 == R, m2 == z3.ToReal(f))
        I.prove('the two roots with their multiplicities', Or(first, second), [2 * r == l - u + D, 2 * s == l - u - D])
        if not I.possible(c == 0):
            for x in [x for p in ps for x in p]:
                I.prove('an integer, not a float', not (is_z(x) and z3.is_real(x)))

    def at_call(self, I, a):
        v, k, l, u = [iv(x) for x in a.values()]
        D, f, r, s = I.ghost
        c = conf(v, k, l, u)
        I.prove('the spectrum is integral at this call', And(valid_params(v, k, l, u), D > 0, D * D == disc(k, l, u), c != 0,
                                                            2 * D * f == D * (v - 1) - c, 2 * r == l - u + D, 2 * s == l - u - D))
        w = I.fresh('swap', BOOL)                 # the order of the two roots is not promised
        return ((k, 1), (z3.If(w, r, s), z3.If(w, f, v - 1 - f)), (z3.If(w, s, r), z3.If(w, v - 1 - f, f)))


@contract('C14')
class Determinant(Contract):
    key = 'srg.utils.determinant'

    def args(self, I):
        v, k, l, u = ints(I, 'v', 'k', 'l', 'u')
        I.add(valid_params(v, k, l, u))
        self.case = I.choose(2)
        if self.case == 0:
            I.add(conf(v, k, l, u) == 0)
        else:
            I.ghost = spectrum(I, v, k, l, u)
            I.add(conf(v, k, l, u) != 0)
        return dict(v=v, k=k, l=l, u=u)

    def on_return(self, I, a, res, old):
        v, k, l, u = a.values()
        if not (is_z(res) and z3.is_int(res) or isinstance(res, int)):
            I.prove('the determinant is an integer', False)
            return
        if self.case == 0:
            h = name(I, (v - 1) / 2)
            I.derive('v is odd', v - 1 == 2 * h, [conf(v, k, l, u) == 0, 1 <= k, k <= v - 2, h == (v - 1) / 2],
                     [(v - 1) * (l - u) == -2 * k, Implies(u - l <= 0, (v - 1) * (u - l) <= 0), Implies(u - l >= 2, (v - 1) * (u - l) >= 2 * (v - 1)),
                      Implies(u - l == 1, (v - 1) * (u - l) == v - 1), (v - 1) * (u - l) == -((v - 1) * (l - u))])
            # the two other eigenvalues have product u - k and multiplicity h each (lemma.conference)
            I.prove('k times (u-k) to the power (v-1)/2', iv(res) == k * POW(u - k, h), [h == (v - 1) / 2, POW(u - k, (v - 1) / 2) == POW(u - k, h)])
        else:
            D, f, r, s = I.ghost
            I.prove('product of the eigenvalues', iv(res) == k * POW(r, f) * POW(s, v - 1 - f),
                    [x for e in (k, r, s, iv(1)) for x in (POW(e, iv(1)) == e, POW(e, iv(0)) == 1)])


@lemma('lemma.conference', 'C14')
def conference(I):
    """conference number 0: whole multiplicities are (v-1)/2 each, and r^f s^f = (rs)^f = (u-k)^f"""
    v, k, l, u = ints(I, 'v', 'k', 'l', 'u')
    D, f, r, s = spectrum(I, v, k, l, u)
    I.add(conf(v, k, l, u) == 0)
    I.derive('equal multiplicities', 2 * f == v - 1, [D > 0, 2 * D * f == D * (v - 1) - conf(v, k, l, u), conf(v, k, l, u) == 0],
             [D * (2 * f - (v - 1)) == 2 * (D * f) - D * (v - 1), Implies(2 * f - (v - 1) >= 1, D * (2 * f - (v - 1)) >= D),
              Implies(2 * f - (v - 1) <= -1, D * (2 * f - (v - 1)) <= -D)])
    P = lambda n: POW(r, n) * POW(s, n) == POW(r * s, n)
    n = I.fresh('n')
    I.add(n >= 0)
    pw = lambda x: [POW(x, iv(0)) == 1, Implies(n >= 0, POW(x, n + 1) == x * POW(x, n))]
    I.derive('power of a product, base', P(iv(0)), [], pw(r) + pw(s) + pw(r * s))
    I.derive('power of a product, step', Implies(P(n), P(n + 1)), [], pw(r) + pw(s) + pw(r * s) + [
        (r * POW(r, n)) * (s * POW(s, n)) == (r * s) * (POW(r, n) * POW(s, n)), n >= 0])


@lemma('lemma.spectrum', 'C14')
def algebra(I):
    """r, s (2r = l-u+D, 2s = l-u-D) are the roots of x^2 = (l-u)x + (k-u); multiplicities as stated"""
    v, k, l, u = ints(I, 'v', 'k', 'l', 'u')
    D, f, r, s = spectrum(I, v, k, l, u)
    for x, y in ((r, s), (s, r)):
        I.derive('root', x * x == (l - u) * x + (k - u), [r * s == u - k, r + s == l - u], [x * x == (l - u) * x - y * x, (l - u) * x == x * x + y * x])
    I.prove('the roots are different', r != s)
    I.prove('multiplicities add up', 1 + f + (v - 1 - f) == v)
    I.prove('weighted sum', k + f * r + (v - 1 - f) * s == 0)
