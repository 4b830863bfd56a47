"""solve_question over the contracts of the steps.

x: an arbitrary 0/1 vector with ones first within equal columns.  A question that was left by a step or a fork has a known *state*:
a truth value S ("x is a completion of a solution of it").  Steps keep S, or report no solution and S is false; of the branches of a
question with S exactly one has S, otherwise none.  The search loop keeps: the number of questions on the stack with S and the number
of times that x was yielded add up to 1 if A x = b, otherwise to 0."""
from contract import *
from contracts.c08 import *
from contracts.c16 import ints

SOL = z3.Function('SOL', Z, BOOL)


def one(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


class Handle(Val):
    """a question on the stack (made by fork_enum), known by number"""

    def __init__(self, h, I):
        self.h, self.I = h, I

    def val_map(self, f):
        return Handle(iv(f(iv(self.h))), self.I)

    def val_ite(self, I, c, other):
        if not isinstance(other, Handle):
            raise Unsupported('conditional question')
        return Handle(z3.If(c, iv(self.h), iv(other.h)), I)

    def materialize(self, I):
        concrete(I)
        return state(I, SOL(iv(self.h)), False)


class State:
    def __init__(self, kind, S, q):
        self.kind, self.S, self.q = kind, S, q


def concrete(I):
    if I.generic or I.mute or I.assume_mode or 'states' not in I.ghost:
        raise Unsupported('work on a question outside the search loop')


def sig(I, q):
    if not (isinstance(q, Obj) and q.cls.name == 'Question'):
        raise Unsupported('not a question')
    V = QV(I, q)
    s = QS(I, q)
    r, c, i = z3.Ints('_r _c _i')
    ts = [s.R, s.C, s.N, iv(V.b.shape[0]), iv(V.bounds.shape[0]), iv(V.loc.shape[0]), s.A(r, c), s.b(r), s.bd(c), s.v(i), s.loc(i), s.quota, s.len]
    return tuple(z3.simplify(t).sexpr() for t in ts) + tuple(str(x.dt) for x in (V.A, V.b, V.bounds, V.v, V.loc))


def state_of(I, q):
    return I.ghost['states'].get(sig(I, q))


class Groups:
    """the groups of equal columns (as reduce_col made them of the posed question) and the ones of x per group"""

    def __init__(self, I):
        s, x, can = I.ghost['posed'], I.ghost['x'], I.ghost['can']
        self.n = n = s.C
        self.N = N = I.fresh('NG')
        st, gid, w = I.fresh_fn('st', Z, Z), I.fresh_fn('gid', Z, Z), I.fresh_fn('W', Z, Z)
        self.st, self.gid, self.W = (lambda g: st(iv(g))), (lambda c: gid(iv(c))), (lambda g: w(iv(g)))
        self.size = lambda g: z3.If(g + 1 < N, st(g + 1), n) - st(g)
        self.together = lambda c, d: Implies(And(rng(c, n), rng(d, n), same_columns(s.A, s.R, c, d)), gid(c) == gid(d))
        I.add(N >= 0,
              FA(lambda c: Implies(rng(c, n), And(rng(gid(c), N), st(gid(c)) <= c, c < st(gid(c)) + self.size(gid(c)))), pat=lambda c: [gid(c)]),
              FA(lambda g, p: Implies(And(rng(g, N), rng(p, self.size(g))), gid(st(g) + p) == g), 2, pat=lambda g, p: [gid(st(g) + p)]),
              FA(self.together, 2, pat=lambda c, d: [gid(c), gid(d)]),
              FA(lambda g: And(0 <= w(g), Implies(rng(g, N), w(g) <= self.size(g))), pat=lambda g: [w(g)]),
              Implies(can, FA(lambda c: Implies(rng(c, n), (x(c) == 1) == (c - st(gid(c)) < w(gid(c)))), pat=lambda c: [x(c)])))


def groups(I):
    if I.ghost['G'] is None:
        I.ghost['G'] = Groups(I)
    return I.ghost['G']


def build(I, G):
    am, I.assume_mode = I.assume_mode, True
    try:
        R, C = ints(I, 'R', 'C')
        I.add(R >= 0, C >= 0)
        A, b, bd = I.fresh_arr((R, C), 'A'), I.fresh_arr((R,), 'b'), I.fresh_arr((C,), 'bd')
        v, loc = I.fresh_arr((G.N,), 'v'), Arr((G.N,), lambda i: G.st(i))
        qu = I.fresh('quota')
        I.add(qu >= 0, FA(lambda c: Implies(rng(c, C), iv(bd.get(c)) >= 0)), FA(lambda r: Implies(rng(r, R), iv(b.get(r)) >= 0)))
        ans = I.call(I.get('srg.srg.Answer'), [], {'value': v, 'location': loc, 'len': G.n})
        return I.call(I.get('srg.srg.Question'), [A, b], {'quota': qu, 'bounds': bd, 'ans': ans})
    finally:
        I.assume_mode = am


def state(I, S, finished):
    """a question in an arbitrary state with truth value S"""
    G = groups(I)
    q = build(I, G)
    t = QS(I, q)
    for n, f in wf(t):
        I.add(f)
    I.add(L.enum_facts(t.U, t.N))
    nm = {n: name_b(I, f(t, G.W)) for n, f in (('K', known), ('L', lin), ('B', bounded))}
    I.add(S == And(*nm.values()))
    if finished:
        I.add(FA(lambda r: Implies(And(t.C == 0, rng(r, t.R)), t.b(r) == 0)), FA(lambda i: Implies(rng(i, t.N), t.v(i) <= t.size(i)), pat=lambda i: [t.v(i)]))
    rec = State('st', S, q)
    rec.t, rec.nm = t, nm
    I.ghost['states'][sig(I, q)] = rec
    return q


def unreadable(why):
    def f(*ix):
        raise Unsupported(why)
    return f


def spoil(I, q):
    """what a step may have written can no longer be read through other references"""
    V = QV(I, q)
    for a in (V.b, V.bounds, V.v):
        if a.store.prot:
            I.frame_violation(f'{a.store.prot} may be written')
        a.store.fn = unreadable('an array of a question after a step')
    for n in list(V.ans.attrs):
        V.ans.attrs[n] = BadDef('the answer of a question after a step')


def close(I, q):
    """a question that must not be used any more"""
    for n in list(q.attrs):
        I.log_attr(q, n)
        q.attrs[n] = BadDef('a question that has been left')


def adopt(I, q, t):
    for n in t.attrs:
        I.log_attr(q, n)
        q.attrs[n] = t.attrs[n]


def no_solution(I):
    raise PyRaise(I.make_user_exc('srg.srg.NoSolution'))


def step_call(c, I, a):
    concrete(I)
    q = a['Q']
    rec = state_of(I, q)
    if rec is None:
        raise Unsupported('a step on a question in an unknown state')
    if rec.kind == 'posed' and (c.key != 'srg.solver.reduce_col' or I.ghost['G'] is not None):
        raise Unsupported('a newly posed question whose columns are not merged first')
    I.prove(f'precondition of {c.key}: the question is in a state left by a step or a fork' if rec.kind == 'st' else f'precondition of {c.key}: newly posed', True)
    if I.choose(2) == 0:
        I.add(z3.Not(rec.S))
        spoil(I, q)
        close(I, q)
        no_solution(I)
    spoil(I, q)
    adopt(I, q, state(I, rec.S, True))
    return None


def fork_call(c, I, a):
    concrete(I)
    q = a['Q']
    rec = state_of(I, q)
    if rec is None or rec.kind != 'st':
        raise Unsupported('a fork of a question in an unknown state')
    t = QS(I, q)
    I.prove(f'precondition of {c.key}: something is unknown', t.C > 0, [FA(lambda i: L.enum_idx(t.U, t.N, i), pat=lambda i: [t.v(i)])])
    if I.choose(2) == 0:
        I.add(z3.Not(rec.S))
        close(I, q)
        no_solution(I)
    close(I, q)
    T, h = I.fresh('T'), I.fresh_fn('child', Z, Z)
    I.add(T >= 0, SUM(lambda j: one(SOL(h(iv(j)))), T) == one(rec.S))
    return Seq(T, lambda j: Handle(h(iv(j)), I))


# ------------------------------------------------------------------------------------------------ small functions
@contract('C04', 'C07')
class QuestionEq(Contract):
    """compares; changes nothing (which questions are equal does not matter for the search: any step may be repeated)"""
    key = 'srg.srg.Question.__eq__'

    def args(self, I):
        out = []
        for n in 'ST':
            R, C, N = ints(I, 'R' + n, 'C' + n, 'N' + n)
            I.add(R >= 0, C >= 0, N >= 0)
            q = construct(I, R, C, N)
            for st in QS(I, q).stores.values():
                st.prot = 'an operand'
            q.prot = I.getattr(q, 'answer').prot = 'an operand'
            out.append(q)
        return dict(self=out[0], other=out[1])

    def on_return(self, I, a, r, old):
        if not (isinstance(r, bool) or (is_z(r) and z3.is_bool(r))):
            raise Unsupported('comparison of questions')
        I.prove('a truth value', True)

    def at_call(self, I, a):
        if not all(isinstance(q, Obj) and q.cls.name == 'Question' for q in a.values()):
            raise Unsupported('comparison of a question with something else')
        for q in a.values():
            QV(I, q)
        return I.fresh('equal', BOOL)


class FillLoop(LoopSpec):
    """group by group: ones, then zeros"""
    strict = True

    def start(self, I, env, st, sq):
        mark = I.ghost['mark']
        arrs = [v for v in env.vars.values() if isinstance(v, Arr) and v.ndim == 1 and v.store.id > mark and z3.simplify(iv(v.shape[0])).eq(z3.simplify(I.ghost['len']))]
        arrs = [v for v in arrs if not any(w is not v and w.store is v.store for w in arrs)]
        outs = [v for v in arrs if z3.is_int_value(z3.simplify(iv(v.get(z3.Int('_q')))))]
        if len(outs) != 1 or sq is None:
            raise Unsupported('the completed answer is not filled group by group')
        if not z3.simplify(iv(sq.n)).eq(z3.simplify(I.ghost['N'])):
            raise Unsupported('loop is not over the groups')
        ptr = [n for n in I.modified_names(st) if n in env.vars and scalar(env.vars[n])]
        if len(ptr) > 1:
            raise Unsupported('loop variables')
        self.out, self.ptr = outs[0], ptr[0] if ptr else None
        self.names = (self.ptr,) if ptr else ()
        return {}

    def frame(self, I, env, s):
        return [self.out.store]

    def inv(self, I, env, i, s):
        v, loc, n, N = I.ghost['v'], I.ghost['loc'], I.ghost['len'], I.ghost['N']
        size = I.ghost['size']
        y = lambda p: iv(self.out.get(p))
        at = lambda i: z3.If(i < N, loc(i), n)
        r = [('groups seen', FA(lambda g, q: Implies(And(rng(g, i), rng(q, size(g))), y(loc(g) + q) == z3.If(q < v(g), 1, 0)), 2)),
             ('the rest is zero', FA(lambda p: Implies(And(at(i) <= p, p < n), y(p) == 0)))]
        if self.ptr:
            r.append(('position', iv(env.vars[self.ptr]) == at(i)))
        return r

    def havoc(self, I, env, s):
        f = I.fresh_fn('y', Z, Z)
        I.log_store(self.out.store)
        self.out.store.fn = lambda *ix: f(*[iv(i) for i in ix])
        if self.ptr:
            env.vars[self.ptr] = I.fresh('ptr')

    def before_body(self, I, env, i, s):
        loc, n, N = I.ghost['loc'], I.ghost['len'], I.ghost['N']
        inc = FA(lambda g, h: Implies(And(0 <= g, g < h, h < N), loc(g) < loc(h)), 2)
        g, h = I.fresh('g'), I.fresh('h')
        I.prove('groups follow each other', Implies(And(0 <= g, g < h, h < N), loc(g) < loc(h)), [L.increasing(loc, N, g, h)])
        I.add(FA(lambda g, h: Implies(And(0 <= g, g < h, h < N), loc(g) < loc(h)), 2, pat=lambda g, h: [loc(g), loc(h)]))
        size = I.ghost['size']
        I.prove('groups before end before', FA(lambda g: Implies(rng(g, i), loc(g) + size(g) <= loc(i))))


@contract('C04', 'C07')
class Binarize(Contract):
    """the completed answer: ones first in every group"""
    key = 'srg.srg.Answer.binarize'

    def loops(self):
        return [FillLoop()]

    def args(self, I):
        N, = ints(I, 'N')
        I.add(N >= 0)
        am, I.assume_mode = I.assume_mode, True
        v, loc, n = I.fresh_arr((N,), 'v'), I.fresh_arr((N,), 'loc'), I.fresh('len')
        v.store.prot = loc.store.prot = 'the answer'
        a = I.call(I.get('srg.srg.Answer'), [], {'value': v, 'location': loc, 'len': n})
        I.assume_mode = am
        a.prot = 'the answer'
        I.ghost = dict(mark=Store._n, **self.parts(I, a))
        return dict(self=a)

    def parts(self, I, a):
        v, loc, n = (I.getattr(a, x) for x in ('_v', '_loc', '_len'))
        if not (isinstance(v, Arr) and isinstance(loc, Arr) and v.ndim == loc.ndim == 1):
            raise Unsupported('representation of an answer')
        f, g = v.snap(), loc.snap()
        N, n = iv(v.shape[0]), iv(n)
        lc = lambda i: iv(g(i))
        size = lambda i: z3.If(i + 1 < N, lc(i + 1), n) - lc(i)
        return dict(v=lambda i: iv(f(i)), loc=lc, len=n, N=N, size=size)

    def pre(self, I, a):
        p = self.parts(I, a['self'])
        v, loc, n, N, size = (p[x] for x in ('v', 'loc', 'len', 'N', 'size'))
        return [('length', And(n >= 0, N >= 0, iv(I.getattr(a['self'], '_loc').shape[0]) == N)),
                ('positions of the groups', And(Implies(N > 0, And(loc(z3.IntVal(0)) == 0, loc(N - 1) < n)), Implies(N == 0, n == 0),
                                                FA(lambda i: Implies(And(0 <= i, i + 1 < N), loc(i) < loc(i + 1)), pat=lambda i: [loc(i)]))),
                ('everything is known', FA(lambda i: Implies(rng(i, N), 0 <= v(i)), pat=lambda i: [v(i)])),
                ('known counts fit', FA(lambda i: Implies(rng(i, N), v(i) <= size(i)), pat=lambda i: [v(i)]))]

    def facts(self, I, p, y):
        return [('ones first in every group', FA(lambda g, q: Implies(And(rng(g, p['N']), rng(q, p['size'](g))), y(p['loc'](g) + q) == z3.If(q < p['v'](g), 1, 0)), 2))]

    def snapshot(self, I, a):
        p = I.ghost
        I.add(L.closed(p['size'], lambda i: z3.If(i < p['N'], p['loc'](i), p['len']), p['N']))
        I.hint_fn = lambda I, name, goal: [L.closed(p['size'], lambda i: z3.If(i < p['N'], p['loc'](i), p['len']), p['N'])] if name.startswith('assert') else []

    def on_return(self, I, a, r, old):
        p = I.ghost
        if not (isinstance(r, Arr) and r.ndim == 1):
            raise Unsupported('result of binarize')
        if r.store.id <= p['mark']:
            raise Unsupported('binarize returns an existing array')
        I.prove('length of the completed answer', iv(r.shape[0]) == p['len'])
        if I.flats:         # put together group by group
            at = lambda i: z3.If(i < p['N'], p['loc'](i), p['len'])
            g, q = I.fresh('g'), I.fresh('q')
            here = And(rng(g, p['N']), rng(q, p['size'](g)))
            for seg, off, pos, ln, n, N in I.flats:
                size = lambda h, ln=ln: iv(ln(h))
                I.prove('start of a group', Implies(here, And(n == p['N'], SUM(size, g) == p['loc'](g))), [L.ext(size, p['size'], g), L.closed(p['size'], at, g)])
                I.prove('a position of a group', Implies(here, And(size(g) == p['size'](g), pos(g, q) == p['loc'](g) + q)))
                I.prove('its group', Implies(here, And(seg(p['loc'](g) + q) == g, off(p['loc'](g) + q) == q)))
            I.prove('ones first in a group', Implies(And(rng(g, p['N']), rng(q, p['size'](g))), iv(r.get(p['loc'](g) + q)) == z3.If(q < p['v'](g), 1, 0)))
            I.add(*[f for n, f in self.facts(I, p, lambda i: iv(r.get(i)))])
            return
        for n, f in self.facts(I, p, lambda i: iv(r.get(i))):
            I.prove('post: ' + n, f)

    def at_call(self, I, a):
        p = self.parts(I, a['self'])
        i = z3.Int('_i')
        known = [r.t for r in I.ghost.get('states', {}).values() if r.kind == 'st' and z3.simplify(r.t.v(i)).eq(z3.simplify(p['v'](i)))]
        hints = [FA(lambda i: L.enum_idx(t.U, t.N, i), pat=lambda i: [t.v(i)]) for t in known[-1:]]
        for t in self.pre(I, a):
            I.prove(f'precondition of {self.key}: {t[0]}', t[1], hints)
        y = I.fresh_arr((p['len'],), 'y')
        f = y.snap()
        for n, g in self.facts(I, p, lambda i: iv(f(i))):
            I.add(g)
        I.ghost['completed'] = (y, p)
        return y


# ------------------------------------------------------------------------------------------------ the search
def value(I, x, posed=False):
    if isinstance(x, Handle):
        return one(SOL(iv(x.h)))
    rec = state_of(I, x)
    if rec is None or (rec.kind == 'posed' and not posed):
        raise Unsupported('a question in an unknown state on the stack')
    return one(rec.S)


def count(I, l, posed=False):
    """questions with S in a list"""
    sq = I.to_seq(l) if isinstance(l, PyList) else l
    c = conc(sq.n)
    if 'concat' in sq.tag:
        return sum((count(I, x, posed) for x in sq.tag['concat']), z3.IntVal(0))
    if c is not None and c <= 32:
        items = [sq.at(i) for i in range(c)]
        if len({id(x) for x in items if isinstance(x, Obj)}) < len([x for x in items if isinstance(x, Obj)]):
            raise Unsupported('a question twice on the stack')
        return sum((value(I, x, posed) for x in items), z3.IntVal(0))
    if 'perm' in sq.tag:
        return count(I, sq.tag['perm'][2], posed)
    if 'removed' in sq.tag:
        src, k = sq.tag['removed']
        return count(I, src, posed) - value(I, src.at(k), posed)
    if not isinstance(sq.at(I.fresh('k')), Handle):
        raise Unsupported('entries of the stack')
    return SUM(lambda j: one(SOL(iv(sq.at(iv(j)).h))), sq.n)


class SearchLoop(LoopSpec):
    """questions on the stack with S + times x was yielded = (A x = b)"""
    strict = True

    def start(self, I, env, st, sq):
        ls = [v for v in env.vars.values() if isinstance(v, PyList)]
        if sq is not None or len(ls) != 1:
            raise Unsupported('the search is not a loop over one stack')
        self.stack = ls[0]
        return {'body': False}

    def frame(self, I, env, s):
        return [self.stack, I.ghost['hits'], I.ghost['Q0']]

    def inv(self, I, env, i, s):
        return [('every solution is in exactly one open question or was yielded once',
                 count(I, self.stack, not s['body']) + iv(I.ghost['hits'].attrs['hits']) == one(I.ghost['S0']))]

    def havoc(self, I, env, s):
        if I.choose(2) == 0:
            return                              # the first iteration
        groups(I)
        spoil(I, I.ghost['Q0'])
        close(I, I.ghost['Q0'])
        T, h = I.fresh('T'), I.fresh_fn('open', Z, Z)
        I.add(T >= 0)
        I.log_list(self.stack)
        self.stack.items, self.stack.seq = None, Seq(T, lambda j: Handle(h(iv(j)), I))
        I.setattr(I.ghost['hits'], 'hits', I.fresh('hits'))

    def before_body(self, I, env, i, s):
        s['body'] = True
        I.ghost['mark'] = Store._n
        I.ghost['completed'] = None


class StepLoop(LoopSpec):
    """S of the question stays"""
    strict = True

    def start(self, I, env, st, sq):
        objs = {id(v): v for v in env.vars.values() if isinstance(v, Obj) and v.cls.name == 'Question'}
        if sq is not None or not objs:
            raise Unsupported('the deductions are not repeated in a while loop')
        s = {'objs': [], 'body': False}
        for o in objs.values():
            rec = state_of(I, o)
            if rec is None:
                raise Unsupported('a question in an unknown state')
            s['objs'].append((o, rec))
        return s

    def frame(self, I, env, s):
        return [o for o, rec in s['objs']]

    def inv(self, I, env, i, s):
        if not s['body']:
            return []
        out = []
        for o, rec in s['objs']:
            now = state_of(I, o)
            if now is None or now.kind != 'st':
                raise Unsupported('a question in an unknown state after an iteration')
            out.append(('the completions are the same', now.S == rec.S))
        return out

    def havoc(self, I, env, s):
        if any(rec.kind == 'posed' for o, rec in s['objs']) and I.choose(2) == 0:
            return
        for o, rec in s['objs']:
            spoil(I, o)
            adopt(I, o, state(I, rec.S, False))

    def before_body(self, I, env, i, s):
        s['body'] = True

    def after_break(self, I, env, i, s):
        pass


@contract('C04', 'C07')
class SolveQuestion(Contract):
    key = 'srg.solver.solve_question'

    def loops(self):
        return [SearchLoop(), StepLoop()]

    def args(self, I):
        R, C = ints(I, 'R', 'C')
        I.add(R >= 1, C >= 0)
        q = construct(I, R, C, C)
        s = QS(I, q)
        I.add(L.enum_facts(s.U, s.N))
        for f in wf_shape(s) + wf_vals(s) + posed(s):
            I.add(f[1])
        xf = I.fresh_fn('x', Z, Z)
        x = lambda i: xf(iv(i))
        I.add(FA(lambda i: And(0 <= x(i), x(i) <= 1), pat=lambda i: [x(i)]))
        can = canonical(s, x)
        I.add(can)
        S0 = name_b(I, FA(lambda r: Implies(rng(r, s.R), SUM(lambda c: s.A(r, c) * x(c), s.C) == s.b(r))))
        hits = Obj(UserClass('ghost', {}, [], None))
        hits.attrs['hits'] = z3.IntVal(0)
        s.stores['A'].prot = s.stores['loc'].prot = 'the question'
        I.ghost = dict(states={}, G=None, posed=s, x=x, can=z3.BoolVal(True), S0=S0, hits=hits, Q0=q, mark=Store._n, completed=None)
        I.ghost['states'][sig(I, q)] = State('posed', S0, q)
        return dict(Q=q)

    def at_call(self, I, a):
        import contracts.c01 as c1
        return c1.search_call(self, I, a)

    def on_return(self, I, a, r, old):
        I.prove('every solution with ones first is yielded exactly once, nothing else', iv(I.ghost['hits'].attrs['hits']) == one(I.ghost['S0']))

    def on_yield(self, I, a, v, old):
        s, x, G = I.ghost['posed'], I.ghost['x'], I.ghost['G']
        done = I.ghost['completed']
        if not (isinstance(v, Arr) and v.ndim == 1) or G is None or done is None or done[0].store is not v.store:
            raise Unsupported('what is yielded is not a completed answer')
        if v.store.id <= I.ghost['mark'] or v.store.prot:
            raise Unsupported('the vector yielded is not new')
        n = s.C
        y = lambda c: iv(v.get(c))
        p = done[1]
        I.prove('length of the vector', iv(v.shape[0]) == n)
        i = z3.Int('_i')
        recs = [r for r in I.ghost['states'].values() if r.kind == 'st' and z3.simplify(r.t.v(i)).eq(z3.simplify(p['v'](i)))]
        if not recs:
            raise Unsupported('the answer completed is not that of a question in a known state')
        rec = recs[-1]
        t, W, gid, st = rec.t, G.W, G.gid, G.st
        c, d, g, m = I.fresh('c'), I.fresh('d'), I.fresh('g'), I.fresh('m')
        pos = lambda c: Implies(rng(c, n), y(c) == z3.If(c - st(gid(c)) < t.v(gid(c)), 1, 0))
        I.prove('the vector at a position', pos(c), [
            Implies(And(rng(gid(c), t.N), rng(c - st(gid(c)), t.size(gid(c)))), y(t.loc(gid(c)) + (c - st(gid(c)))) == z3.If(c - st(gid(c)) < t.v(gid(c)), 1, 0)),
            t.loc(gid(c)) + (c - st(gid(c))) == c, y(t.loc(gid(c)) + (c - st(gid(c)))) == y(c)])
        every = FA(pos, pat=lambda c: [y(c)])
        I.add(every)
        I.prove('the vector is 0/1', Implies(rng(c, n), Or(y(c) == 0, y(c) == 1)))
        I.prove('equal columns are in one group', G.together(c, d), [G.together(c, d)])
        I.derive('the vector has ones first', Implies(And(0 <= c, c < d, d < n, same_columns(s.A, s.R, c, d)), y(c) >= y(d)), [every, G.together(c, d)], [pos(c), pos(d)])
        hit = name_b(I, FA(lambda c: Implies(rng(c, n), y(c) == x(c))))
        eqW = name_b(I, FA(lambda g: Implies(rng(g, t.N), t.v(g) == W(g)), pat=lambda g: [W(g)]))
        I.prove('the vector is x if it has the ones of x per group', Implies(And(eqW, rng(c, n)), y(c) == x(c)), [pos(c)])
        I.add(Implies(eqW, hit))
        m = z3.If(t.v(g) < W(g), t.v(g), W(g))
        at = st(g) + m
        k, here = gid(at), And(rng(g, t.N), rng(m, t.size(g)))
        inc = lambda i, j: L.increasing(t.loc, t.N, i, j)
        I.prove('a position in a group', Implies(here, And(k == g, rng(at, n))), [Implies(And(rng(g, t.N), rng(m, t.size(g))), k == g), inc(z3.IntVal(0), g), inc(g + 1, t.N - 1)])
        f = [Implies(here, And(k == g, rng(at, n))),
             Implies(rng(at, n), y(at) == z3.If(at - st(k) < t.v(k), 1, 0)),
             Implies(rng(at, n), (x(at) == 1) == (at - st(k) < W(k))),
             Implies(And(hit, rng(at, n)), y(at) == x(at)),
             And(W(g) >= 0, Implies(rng(g, t.N), W(g) <= t.size(g))), Implies(rng(g, t.N), And(0 <= t.v(g), t.v(g) <= t.size(g)))]
        I.derive('if the vector is x, it has the ones of x per group', Implies(And(hit, rng(g, t.N)), t.v(g) == W(g)), f)
        I.add(Implies(hit, eqW))
        I.prove('nothing is unknown', t.C == 0, [L.enum_none(t.U, t.N)])
        I.prove('the known counts are those of x', rec.nm['K'] == eqW)
        I.prove('the equations hold', rec.nm['L'])
        I.prove('the bounds hold', rec.nm['B'])
        I.prove('the vector is x exactly when the question has x as a completion', hit == rec.S)
        I.setattr(I.ghost['hits'], 'hits', norm(iv(I.ghost['hits'].attrs['hits']) + one(hit)))
        v.store.prot = 'a vector handed out'
