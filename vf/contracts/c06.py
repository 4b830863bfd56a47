from contract import *
from contracts.c16 import ints
from alls import *

# an entry (k, i, v) of the list: k the row as a binary number, i its index, v the right-hand side.
# C (ghost): number of columns.  P (ghost): any property of rows that subtraction preserves - instantiated in `elim` with
# "x solves this equation" and with "this row does not involve that column".


def C_of(I):
    return I.ghost['C']


def weak(I):
    C = C_of(I)
    return Pred('well formed', lambda k, i, v: And(0 <= k, k < POW2(C), 0 <= v, v <= 127))


STRONG = Pred('row is not zero', lambda k, i, v: k > 0)


def preds(I):
    """[(Pred, zero flag)]: the flag says that no row 0 = v > 0 satisfies the property"""
    return I.ghost['preds']


def closure(P, k, v, mk, mv):
    """subtracting a row that satisfies P"""
    return Implies(And(BAND(mk, k) == mk, 0 <= mk, 0 <= k, 0 <= mv, mv <= v, P(mk, mv)), P(k, v) == P(k - mk, v - mv))


def monotone(P, k, v, mk, mv):
    """a part of a row cannot exceed it"""
    return Implies(And(BAND(mk, k) == mk, 0 <= mk, 0 <= k, P(mk, mv), P(k, v)), mv <= v)


def abstract(I):
    """an arbitrary property closed under subtraction"""
    g = z3.Function('PROP', Z, Z, Z)
    f = lambda k, v: g(k, v) == 1
    z = z3.Const('PROPZERO', BOOL)
    k, v, mk, mv = [fresh_int('q') for _ in range(4)]
    both = [(BAND(mk, k), g(mk, mv), g(k, v)), (BAND(k, mk), g(mk, mv), g(k, v))]       # kept alive for z3
    I.add(z3.ForAll([k, v, mk, mv], closure(f, k, v, mk, mv), patterns=[z3.MultiPattern(*p) for p in both]))
    I.add(z3.ForAll([k, v, mk, mv], Implies(z, monotone(f, k, v, mk, mv)), patterns=[z3.MultiPattern(*p) for p in both]))
    zero = g(0, v)
    I.add(f(0, 0), z3.ForAll([v], Implies(And(z, v > 0), z3.Not(f(0, v))), patterns=[zero]))
    I.ghost['preds'] = [(Pred('property', lambda k, i, v: f(k, v)), z)]


def closed(I):
    """the properties of the caller are closed under subtraction (an obligation for each)"""
    if I.ghost.get('closed'):
        return
    I.ghost['closed'] = True
    for P, z, hints in I.ghost.get('concrete', ()):
        k, v, mk, mv = ints(I, 'k', 'v', 'mk', 'mv')
        f = lambda k, v: zb(P.f(iv(k), None, iv(v)))
        sub = And(BAND(mk, k) == mk, 0 <= mk, 0 <= k, k < POW2(C_of(I)), mk < POW2(C_of(I)))
        hs = hints(k, v, mk, mv)
        I.prove(f'{P.name}: subtraction keeps it', Implies(And(sub, 0 <= mv, mv <= v), closure(f, k, v, mk, mv)), hs)
        I.prove(f'{P.name}: the empty row', f(z3.IntVal(0), z3.IntVal(0)), hints(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)))
        if z is True:
            I.prove(f'{P.name}: the empty row with a positive right-hand side', Implies(v > 0, z3.Not(f(z3.IntVal(0), v))),
                    hints(z3.IntVal(0), v, z3.IntVal(0), z3.IntVal(0)))
            I.prove(f'{P.name}: a part does not exceed the whole', Implies(sub, monotone(f, k, v, mk, mv)), hs)


class ListContract(Contract):
    """a function that rearranges and simplifies the list of rows in place"""
    strong_in = True

    def setup(self, I):
        I.ghost['C'] = I.fresh('C')
        I.add(I.ghost['C'] >= 1)
        abstract(I)

    def args(self, I):
        self.setup(I)
        h = PyList(seq=base(I, 'h'))
        self.h = h
        I.ghost['Sin'] = [(P, ALL(I, P, h)) for P, z in preds(I)]
        return {self.argname: h}

    def need(self, I, h):
        out = [('rows well formed', ALL(I, weak(I), h))]
        if self.strong_in:
            out.append(('no row is zero', ALL(I, STRONG, h)))
        return out

    def pre(self, I, a):
        return self.need(I, a[self.argname])

    def give(self, I, h, r):
        return [('rows well formed', ALL(I, weak(I), h)), ('no row is zero', ALL(I, STRONG, h))]

    def on_return(self, I, a, r, old):
        h = a[self.argname]
        for nm, f in self.give(I, h, r):
            I.prove(nm, f)
        for P, sin in I.ghost['Sin']:
            I.prove('the list says the same as before', ALL(I, P, h) == sin)

    def on_raise(self, I, a, exc, old):
        I.prove(f'only NoSolution is raised ({exc.cls.name})', exc.cls.name == 'NoSolution')
        for (P, z), (_, sin) in zip(preds(I), I.ghost['Sin']):
            I.prove('no solution is reported only if there is none', Implies(z, z3.Not(sin)))

    def at_call(self, I, a):
        h = a[self.argname]
        if not isinstance(h, PyList):
            raise Unsupported('not a list')
        if h.prot and not I.assume_mode:
            I.frame_violation(f'{h.prot} is changed')
        for nm, f in self.need(I, h):
            I.prove(f'precondition of {self.key}: {nm}', f)
        closed(I)
        before = [ALL(I, P, h) for P, z in preds(I)]
        sq = I.to_seq(h)
        if I.choose(2) == 1:
            for (P, z), s in zip(preds(I), before):
                I.add(Implies(z, z3.Not(s)))
            raise PyRaise(I.make_user_exc('srg.srg.NoSolution'))
        I.log_list(h)
        h.items, h.seq = None, base(I, 'o')
        r = self.value(I)
        for nm, f in self.give(I, h, r):
            I.add(f)
        for (P, z), s in zip(preds(I), before):
            I.add(ALL(I, P, h) == s)
        if 'cover' in I.ghost:
            I.ghost['cover'](sq, I.to_seq(h))
        return r

    def value(self, I):
        return None


@contract('C06', 'C08', 'C04')
class RemoveZeroKeys(ListContract):
    key = 'srg.gauss_elim._remove_zerokeys'
    argname = 'h'
    strong_in = False


@contract('C06', 'C08', 'C04')
class GaussElim(ListContract):
    key = 'srg.gauss_elim._gauss_elim'
    argname = 'hd'

    def loops(self):
        return [ListLoop([Pred('well formed', lambda k, i, v: self.wf(k, i, v))], [STRONG])]

    def args(self, I):
        a = ListContract.args(self, I)
        self.wf = weak(I).f
        return a

    def need(self, I, h):
        return ListContract.need(self, I, h) + [('not empty', iv(I.to_seq(h).n) >= 1)]

    def give(self, I, h, r):
        return ListContract.give(self, I, h, r) + [('not empty', iv(I.to_seq(h).n) >= 1)]

    def value(self, I):
        return I.fresh('again', BOOL)


@contract('C06', 'C08', 'C04')
class Elim_(ListContract):
    key = 'srg.gauss_elim._elim'
    argname = 'hd'
    strong_in = False

    def loops(self):
        return [ListLoop([Pred('well formed', lambda k, i, v: self.wf(k, i, v))], [STRONG])]

    def args(self, I):
        a = ListContract.args(self, I)
        self.wf = weak(I).f
        return a


# ------------------------------------------------------------------------------------------------ codes and matrices
def code(A, r, C):
    """row r of A as a binary number, first column most significant"""
    return SUM(lambda s: iv(A(r, C - 1 - s)) * POW2(s), C)


def binary(A, R, C):
    return FA(lambda r, c: Implies(And(rng(r, R), rng(c, C)), Or(iv(A(r, c)) == 0, iv(A(r, c)) == 1)), 2)


@contract('C06', 'C08', 'C04')
class Encode(Contract):
    key = 'srg.gauss_elim._encode'

    def args(self, I):
        R, C = ints(I, 'R', 'C')
        I.add(R >= 0, C >= 0)
        A, b = I.fresh_arr((R, C), 'A'), I.fresh_arr((R,), 'b')
        A.store.prot, b.store.prot = 'the matrix', 'the right-hand side'
        return dict(A=A, b=b)

    def pre(self, I, a):
        A, b = a['A'], a['b']
        R, C = A.shape
        return [('entries 0/1', binary(A.get, R, C)), ('one right-hand side per row', iv(b.shape[0]) == iv(R)), ('a column', iv(C) >= 1)]

    def entry(self, a, r, at):
        A, b = a['A'], a['b']
        R, C = A.shape
        k, i, v = at
        return And(iv(k) == code(A.get, r, C), iv(v) == iv(b.get(r)), 0 <= iv(k), iv(k) < POW2(C))

    def bits(self, a, r, s, k):
        A = a['A']
        R, C = A.shape
        return Implies(And(rng(r, R), s >= 0), BIT(iv(k), s) == z3.If(s < iv(C), iv(A.get(r, C - 1 - s)), z3.IntVal(0)))

    def on_return(self, I, a, r, old):
        A, b = a['A'], a['b']
        R, C = A.shape
        sq = I.to_seq(r)
        I.prove('one entry per row', iv(sq.n) == iv(R))
        w = I.fresh('row')
        e = sq.at(w)
        if not isinstance(e, tuple) or len(e) != 3:
            raise Unsupported('entries of the list')
        k, i, v = e
        c = code(A.get, w, C)
        d = lambda s: iv(A.get(w, C - 1 - s))
        f = lambda s: d(s) * POW2(s)
        I.add(rng(w, R))
        I.prove('the code without the last column', c == iv(A.get(w, C - 1)) + SUM(lambda s: f(s + 1), C - 1), [L.split(f, 1, C - 1), L.step(f, 0)])
        I.prove('the code from the last column on', SUM(lambda s: f(s + 1), C - 1) == SUM(lambda s: f(C - 1 - s), C - 1),
                [L.rev(lambda s: f(s + 1), C - 1)])
        I.prove('each entry is the row as a binary number and its right-hand side', self.entry(a, w, e), [L.binbound(d, C)])
        s = I.fresh('s')
        I.prove('the binary digits are the entries', self.bits(a, w, s, c), [L.binbits(d, C, s)])

    def result(self, I, a):
        return PyList(seq=base(I, 'e'))

    def post(self, I, a, r):
        A, b = a['A'], a['b']
        R, C = A.shape
        sq = I.to_seq(r)
        k = lambda w: iv(sq.at(w)[0])
        return [('one entry per row', iv(sq.n) == iv(R)),
                ('entries', FA(lambda w: Implies(rng(w, R), self.entry(a, w, sq.at(w))))),
                ('digits', FA(lambda w, s: self.bits(a, w, s, k(w)), 2, pat=lambda w, s: [BIT(k(w), s)]))]


def bits_of(r, n, k):
    """r(0..n-1): the binary digits of k, most significant first, no leading zero"""
    return And(iv(n) >= 0, (iv(n) == 0) == (k == 0), FA(lambda i: Implies(rng(i, n), iv(r(i)) == BIT(k, iv(n) - 1 - i))),
               Implies(iv(n) > 0, BIT(k, iv(n) - 1) == 1), FA(lambda s: Implies(s >= iv(n), BIT(k, s) == 0)))


class BinLoop(LoopSpec):
    """the number is halved, its last digit appended"""

    def __init__(self, k):
        self.k = k

    def start(self, I, env, st, sq):
        if sq is not None:
            raise Unsupported('for loop over digits')
        mod = [v for v in I.modified_names(st) if v in env.vars and is_z(env.vars[v]) and z3.is_int(env.vars[v])]
        nums = [v for v in mod if I.entails(iv(env.vars[v]) == self.k)]
        lists = [v for v, x in env.vars.items() if isinstance(x, PyList) and I.entails(iv(I.to_seq(x).n) == 0)]
        if len(nums) != 1 or len(lists) != 1:
            raise Unsupported('digits loop')
        return {'num': nums[0], 'list': env.vars[lists[0]], 'name': lists[0], 'st': st}

    def inv(self, I, env, i, s):
        a, sq = env.vars[s['num']], I.to_seq(s['list'])
        k = self.k
        return [('what is left', And(scalar(a) and is_num(a), iv(a) == SHR(k, i), iv(a) >= 0)),
                ('digits so far', iv(sq.n) == i),
                ('digits are the last binary digits', True if conc(sq.n) == 0 else FA(lambda j: Implies(rng(j, i), iv(sq.at(j)) == BIT(k, j)))),
                ('the last digit but one was not the end', Implies(i > 0, SHR(k, i - 1) != 0))]

    def havoc(self, I, env, s):
        env.vars[s['num']] = I.fresh(s['num'])
        l = s['list']
        I.log_list(l)
        n, f = I.fresh('n'), I.fresh_fn('digit', Z, Z)
        I.add(n >= 0)
        l.items, l.seq = None, Seq(n, lambda j: f(iv(j)))
        for nm in I.modified_names(s['st']):
            if nm in env.vars and nm not in (s['num'], s['name']):
                env.vars[nm] = BadDef(f'{nm} is carried over a loop')


def is_num(a):
    return not isinstance(a, bool) and (isinstance(a, int) or (is_z(a) and z3.is_int(a)))


@contract('C06', 'C08', 'C04')
class Dec2Bin(Contract):
    key = 'srg.gauss_elim._dec2bin'

    kk = z3.Int('kk!bin')

    def loops(self):
        return [BinLoop(self.kk)]

    def args(self, I):
        I.add(self.kk >= 0)
        return dict(a=self.kk)

    def pre(self, I, a):
        return [('a non-negative integer', iv(a['a']) >= 0)]

    def post(self, I, a, r):
        if not isinstance(r, Arr) or r.ndim != 1:
            raise Unsupported('digits are not an array')
        k, n = iv(a['a']), iv(r.shape[0])
        s = I.fresh('s')
        return [('the binary digits', bits_of(r.get, n, k), [L.shrzero(k, n, s)])]

    def on_return(self, I, a, r, old):
        if not isinstance(r, Arr) or r.ndim != 1:
            raise Unsupported('digits are not an array')
        k, n = iv(a['a']), iv(r.shape[0])
        I.prove('digits', And(n >= 0, (n == 0) == (k == 0), FA(lambda i: Implies(rng(i, n), iv(r.get(i)) == BIT(k, n - 1 - i)))))
        I.prove('the first digit is 1', Implies(n > 0, BIT(k, n - 1) == 1))
        s = I.fresh('s')
        I.prove('no further digits', Implies(s >= n, BIT(k, s) == 0), [L.shrzero(k, n, s)])

    def result(self, I, a):
        n = I.fresh('n')
        I.add(n >= 0)
        return I.fresh_arr((n,), 'digits')


def width(sq, C):
    """C is the number of digits of the longest row"""
    k = lambda r: iv(sq.at(r)[0])
    return And(iv(C) >= 1, FA(lambda r, s: Implies(And(rng(r, sq.n), s >= iv(C)), BIT(k(r), s) == 0), 2),
               EX(lambda r: And(rng(r, sq.n), BIT(k(r), iv(C) - 1) == 1)))


@contract('C06', 'C08', 'C04')
class Decode(Contract):
    key = 'srg.gauss_elim._decode'

    def args(self, I):
        h = PyList(seq=base(I, 'h'))
        h.prot = 'the list'
        return dict(hd=h)

    def pre(self, I, a):
        sq = I.to_seq(a['hd'])
        return [('not empty', iv(sq.n) >= 1), ('no row is zero', ALL(I, STRONG, a['hd'])),
                ('right-hand sides', ALL(I, Pred('small', lambda k, i, v: And(0 <= v, v <= 127)), a['hd']))]

    def post(self, I, a, r):
        sq = I.to_seq(a['hd'])
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Arr) and isinstance(r[1], Arr) and r[0].ndim == 2 and r[1].ndim == 1):
            raise Unsupported('result of _decode')
        A, b = r
        R, C = A.shape
        return [('a row per entry', And(iv(R) == iv(sq.n), iv(b.shape[0]) == iv(R))),
                ('as many columns as the longest row has digits', width(sq, C)),
                ('each row is made of the binary digits', FA(lambda r, c: Implies(And(rng(r, R), rng(c, C)),
                                                               iv(A.get(r, c)) == BIT(iv(sq.at(r)[0]), iv(C) - 1 - c)), 2)),
                ('right-hand sides', FA(lambda r: Implies(rng(r, R), iv(b.get(r)) == iv(sq.at(r)[2]))))]

    def result(self, I, a):
        I.ghost['decoded'] = I.to_seq(a['hd'])
        R, C = I.fresh('R'), I.fresh('C')
        I.add(R >= 0, C >= 0)
        return (I.fresh_arr((R, C), 'D'), I.fresh_arr((R,), 'd'))


def nonzero_columns(A, R, C):
    return FA(lambda c: Implies(rng(c, C), EX(lambda r: And(rng(r, R), iv(A(r, c)) != 0))))


def zero_column(A, R, c):
    return FA(lambda r: Implies(rng(r, R), iv(A(r, c)) == 0))


def same_columns(A, R, c, d):
    return FA(lambda r: Implies(rng(r, R), iv(A(r, c)) == iv(A(r, d))))


def solves(A, b, R, C, x):
    return FA(lambda r: Implies(rng(r, R), SUM(lambda c: iv(A(r, c)) * x(c), C) == iv(b(r))))


@contract('C06', 'C08', 'C04')
class Elim(Contract):
    """ghost['x']: vectors of non-negative integers the caller is interested in"""
    key = 'srg.gauss_elim.elim'

    def args(self, I):
        R, C = ints(I, 'R', 'C')
        I.add(R >= 0, C >= 0)
        A, b = I.fresh_arr((R, C), 'A'), I.fresh_arr((R,), 'b')
        A.store.prot, b.store.prot = 'the matrix', 'the right-hand side'
        xf = I.fresh_fn('x', Z, Z)
        x = lambda c: xf(iv(c))
        I.add(FA(lambda c: x(c) >= 0, pat=lambda c: [x(c)]))
        s, t = ints(I, 's', 't')
        I.add(rng(s, C), rng(t, C))
        I.points = [iv(0), C - 1, C - 1 - s, C - 1 - t]
        bit = lambda k, s: BIT(iv(k), s)
        lin = lambda k: SUM(lambda s: bit(k, s) * x(C - 1 - s), C)
        sub = lambda s: (lambda k, v, mk, mv: [L.bitsub(k, mk, s)])

        def lin_hints(k, v, mk, mv):
            f = lambda k: (lambda s: bit(k, s) * x(C - 1 - s))
            if z3.is_int_value(k):
                return [L.ext(f(k), lambda s: z3.IntVal(0), C)]
            return [FA(lambda s: L.bitsub(k, mk, s), pat=lambda s: [bit(k - mk, s)]), L.nonneg(f(k - mk), C),
                    L.ext(f(k - mk), lambda s: bit(k, s) * x(C - 1 - s) - bit(mk, s) * x(C - 1 - s), C)]
        P1 = Pred('solves', lambda k, i, v: lin(k) == v)
        P2 = Pred('column s is zero', lambda k, i, v: bit(k, s) == 0)
        P0 = Pred('the first column is zero', lambda k, i, v: bit(k, C - 1) == 0)
        P3 = Pred('columns s and t are equal', lambda k, i, v: bit(k, s) == bit(k, t))
        I.ghost = dict(C=C, x=x, s=s, t=t, lin=lin, preds=[(P1, True), (P2, False), (P0, False), (P3, False)],
                       concrete=[(P1, True, lin_hints), (P2, False, sub(s)), (P0, False, sub(C - 1)),
                                 (P3, False, lambda *q: [L.bitsub(q[0], q[2], s), L.bitsub(q[0], q[2], t)])])

        def cover(sq, sq2):
            """the first column occurs in the list of the input, so it does afterwards"""
            for P, z in preds(I):
                define(I, P, sq)
                define(I, P, sq2)
            w = witness(I, 'the first column is not zero', lambda r: And(rng(r, R), iv(A.get(r, 0)) == 1))
            I.prove('its digit', BIT(iv(sq.at(w)[0]), C - 1) == 1)
            I.prove('the first column still occurs', EX(lambda r: And(rng(r, sq2.n), BIT(iv(sq2.at(r)[0]), C - 1) == 1)))
        I.ghost['cover'] = cover
        return dict(A=A, b=b)

    def pre(self, I, a):
        A, b = a['A'], a['b']
        R, C = A.shape
        return [('entries 0/1', binary(A.get, R, C)), ('one right-hand side per row', iv(b.shape[0]) == iv(R)), ('a column', iv(C) >= 1),
                ('right-hand sides 0..127', FA(lambda r: Implies(rng(r, R), And(0 <= iv(b.get(r)), iv(b.get(r)) <= 127)))),
                ('no zero column', nonzero_columns(A.get, R, C))]

    def solved(self, I, a):
        A, b = a['A'], a['b']
        R, C = A.shape
        return solves(A.get, b.get, R, C, I.ghost['x'])

    def encoded(self, I, a):
        """what the properties say of the encoded rows"""
        A, b = a['A'], a['b']
        R, C = A.shape
        x = I.ghost['x']
        lin = I.ghost['lin']
        seqs = {id(sq): sq for (nm, _), (r, sq) in I.alls.items() if not sq.tag}
        if 'decoded' in I.ghost:
            seqs.pop(id(I.ghost['decoded']), None)
            seqs[id(I.ghost['decoded'])] = I.ghost['decoded']
        for sq in seqs.values():
            for P, z in preds(I):
                define(I, P, sq)
        first = next(iter(seqs.values()))
        k = lambda r: iv(first.at(r)[0])
        g = lambda r: (lambda s: iv(A.get(r, C - 1 - s)) * x(C - 1 - s))
        prove_all(I, 'a row on x', lambda r: Implies(rng(r, R), lin(k(r)) == SUM(g(r), C)),
                  lambda r: [L.ext(lambda s: BIT(k(r), s) * x(C - 1 - s), g(r), C)])
        prove_all(I, 'a row on x, first column first', lambda r: Implies(rng(r, R), lin(k(r)) == SUM(lambda c: iv(A.get(r, c)) * x(c), C)),
                  lambda r: [L.rev(g(r), C)])
        return list(seqs.values())

    def on_raise(self, I, a, exc, old):
        if exc.cls.name != 'NoSolution':
            I.prove(f'no exception ({exc.cls.name})', False)
            return
        self.encoded(I, a)
        I.prove('no solution is reported only if there is none', z3.Not(self.solved(I, a)))

    def on_return(self, I, a, r, old):
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Arr) and isinstance(r[1], Arr) and r[0].ndim == 2 and r[1].ndim == 1):
            raise Unsupported('result of elim')
        A, b = a['A'], a['b']
        R, C = A.shape
        D, d = r
        S, E = D.shape
        x, s, t, lin = (I.ghost[n] for n in ('x', 's', 't', 'lin'))
        seqs = self.encoded(I, a)
        last = seqs[-1]
        k = lambda r: iv(last.at(r)[0])
        first = seqs[0]
        kf = lambda r: iv(first.at(r)[0])
        I.prove('not fewer columns', iv(E) >= iv(C))
        prove_all(I, 'no digits beyond the columns', lambda r, q: Implies(And(rng(r, last.n), q >= iv(C)), BIT(k(r), q) == 0),
                  lambda r, q: [L.bitbound(k(r), C, q)], 2, pat=lambda r, q: [BIT(k(r), q)])
        I.prove('not more columns', iv(E) <= iv(C))
        I.prove('rows', And(iv(S) >= 1, iv(d.shape[0]) == iv(S)))
        I.prove('entries 0/1', binary(D.get, S, C))
        I.prove('right-hand sides 0..127', FA(lambda r: Implies(rng(r, S), And(0 <= iv(d.get(r)), iv(d.get(r)) <= 127))))
        h = lambda r: (lambda c: iv(D.get(r, c)) * x(c))
        I.prove('as many columns as before', iv(E) == iv(C))
        prove_all(I, 'digits of the result', lambda r, q: Implies(And(rng(r, S), rng(q, C)), iv(D.get(r, C - 1 - q)) == BIT(k(r), q)), n=2,
                  pat=lambda r, q: [BIT(k(r), q)])
        prove_all(I, 'a row of the result on x, last column first', lambda r: Implies(rng(r, S), lin(k(r)) == SUM(lambda c: h(r)(C - 1 - c), C)),
                  lambda r: [L.ext(lambda s: BIT(k(r), s) * x(C - 1 - s), lambda c: h(r)(C - 1 - c), C)])
        prove_all(I, 'a row of the result on x', lambda r: Implies(rng(r, S), lin(k(r)) == SUM(h(r), C)), lambda r: [L.rev(h(r), C)])
        I.prove('the same solutions', self.solved(I, a) == solves(D.get, d.get, S, C, x))
        cs, ct = C - 1 - s, C - 1 - t
        prove_all(I, 'digits of the input', lambda r: Implies(rng(r, R), And(BIT(kf(r), s) == iv(A.get(r, cs)), BIT(kf(r), t) == iv(A.get(r, ct)))))
        w = witness(I, 'column s is not zero', lambda r: And(rng(r, R), iv(A.get(r, cs)) == 1))
        I.prove('its digit s', BIT(kf(w), s) == 1)
        w = witness(I, 'column s of the result is not zero', lambda r: And(rng(r, S), BIT(k(r), s) == 1))
        I.prove('no column vanishes', z3.Not(zero_column(D.get, S, cs)))
        eqs = lambda k, n: FA(lambda r: Implies(rng(r, n), BIT(k(r), s) == BIT(k(r), t)))
        I.prove('equal columns of the input', eqs(kf, R) == same_columns(A.get, R, cs, ct))
        I.prove('equal columns of the result', eqs(k, S) == same_columns(D.get, S, cs, ct))
        I.prove('columns become equal only if they were', same_columns(D.get, S, cs, ct) == same_columns(A.get, R, cs, ct))

    def result(self, I, a):
        R, C = I.fresh('R'), a['A'].shape[1]
        I.add(R >= 1)
        return (I.fresh_arr((R, C), 'E'), I.fresh_arr((R,), 'e'))

    def at_call(self, I, a):
        for t in self.pre(I, a):
            I.prove(f'precondition of {self.key}: {t[0]}', t[1])
        A, b = a['A'], a['b']
        R, C = A.shape
        xs = I.ghost.get('xs', [])
        if I.choose(2) == 1:
            for x in xs:
                I.add(z3.Not(solves(A.get, b.get, R, C, x)))
            raise PyRaise(I.make_user_exc('srg.srg.NoSolution'))
        D, d = self.result(I, a)
        S = D.shape[0]
        I.add(binary(D.get, S, C), FA(lambda r: Implies(rng(r, S), And(0 <= iv(d.get(r)), iv(d.get(r)) <= 127))))
        for x in xs:
            I.add(solves(A.get, b.get, R, C, x) == solves(D.get, d.get, S, C, x))
        still = lambda c, e: Implies(And(rng(c, C), rng(e, C)), same_columns(D.get, S, c, e) == same_columns(A.get, R, c, e))
        I.add(nonzero_columns(D.get, S, C), FA(still, 2))
        I.ghost['elim_same'] = still
        return (D, d)
