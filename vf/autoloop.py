"""Loops without a written invariant: an invariant (the state as a closed form of the iteration number) is inferred
and then checked like any other: it holds on entry, and one iteration from it leads to it again.  The inference is not
trusted; only the check is.  List appends and dict-of-list appends are taken as the sequence of appended values."""
import ast
import z3
from core import *
import lemmas as L
import interp
from interp import *


class Local:
    """exploration of the paths through one generic iteration"""

    def __init__(self, outer):
        self.outer = outer
        self.prefix, self.pos, self.trace, self.work = [], 0, [], []
        self.conds = []

    def fresh(self):
        return self.pos >= len(self.prefix) and (self.outer is None or self.outer.fresh())

    def choose(self, I, n, feas):
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(c)
            return c
        opts = [i for i in range(n) if feas is None or feas(i)]
        if not opts:
            raise PathEnd()
        for o in opts[1:]:
            self.work.append(self.trace + [o])
        self.trace.append(opts[0])
        self.pos += 1
        self.prefix = list(self.trace)
        return opts[0]


class Poison:
    def __init__(self, why):
        self.why = why

    @property
    def n(self):
        raise Unsupported(self.why)

    def at(self, i):
        raise Unsupported(self.why)

    tag = {}


def snapshot_env(env):
    out = []
    e = env
    while e is not None:
        if e.glob is not None or e.parent is None:
            break
        out.append((e, dict(e.vars), list(e.order)))
        e = e.parent
    if not out:
        out.append((env, dict(env.vars), list(env.order)))
    return out


def restore_env(snap):
    for e, v, o in snap:
        e.vars.clear()
        e.vars.update(v)
        e.order[:] = o


def body_paths(I, env, lo, n, g, do_body, mute, watch, setup=None):
    """all paths of one iteration: [(conds, outcome, facts, effects)]"""
    res = []
    work = [[]]
    outer = I.local
    count = 0
    hi = lo
    while work:
        loc = Local(outer)
        loc.prefix = work.pop()
        loc.work = work
        count += 1
        if count > 40:
            raise Unsupported('too many paths through a loop body')
        mark = len(I.assume)
        I.path_solver.push()
        esnap = snapshot_env(env)
        oj, I.journal = I.journal, []
        made = (Store._n, PyList._n)
        orec, owatch = I.rec, I.rec_watch
        I.rec, I.rec_watch = [], set(watch)
        ofr = list(I.frames)
        oys = list(I.yield_stack)
        opts = list(I.points)
        oalls, opop = dict(I.alls), list(I.popped)
        I.symno = lo
        I.mute += mute
        omg, I.mute_goals = getattr(I, 'mute_goals', None), set()
        out = None
        I.local = loc
        I.loop_stack.append((g, n, loc, mark, lo))
        I.loop_marks.append(Store._n)
        I.loop_objs.append(PyList._n)
        try:
            try:
                I.add(g >= 0, g < iv(n))
                if setup:
                    setup()
                I.points.append(g)
                k0 = len(I.assume)
                do_body(g)
                out = ('normal', None)
            except ContinueEx:
                out = ('normal', None)
            except BreakEx:
                out = ('break', None)
            except GenBreak:
                out = ('break', None)
            except ReturnEx as e:
                out = ('return', e.v)
            except PyRaise as e:
                out = ('raise', e.exc)
            except PathEnd:
                out = None
            if out is not None:
                facts = [f for f in I.assume[k0:] if f.get_id() not in I.mute_goals]
                facts = [f for f in facts if not any(f.eq(c) for c in loc.conds if is_z(c))]
                eff = {'vars': {}, 'attrs': {}, 'stores': {}, 'lists': {}, 'dicts': {}, 'listlog': {}, 'rec': list(I.rec)}
                for e, v, o in esnap:
                    for k, x in e.vars.items():
                        if k not in v or v[k] is not x:
                            eff['vars'][(id(e), k)] = (e, k, x, k in v)
                for what, undo in I.journal:
                    if what[0] == 'store':
                        eff['stores'][id(what[1])] = (what[1], what[1].fn)
                    elif what[0] == 'attr':
                        eff['attrs'][(id(what[1]), what[2])] = (what[1], what[2], what[1].attrs.get(what[2]))
                    elif what[0] == 'list':
                        eff['lists'][id(what[1])] = what[1]
                        eff['listlog'][id(what[1])] = eff['listlog'].get(id(what[1]), 0) + 1
                    else:
                        eff['dicts'][id(what[1])] = what[1]
                res.append((list(loc.conds), out, facts, eff))
        finally:
            hi = max(hi, I.symno)
            jr = I.journal
            for what, undo in reversed(jr):
                if (what[1].id > made[0]) if what[0] == 'store' else (getattr(what[1], 'no', 0) > made[1]):
                    continue                    # made in the body
                undo()
            I.journal = oj
            I.rec, I.rec_watch = orec, owatch
            I.frames[:] = ofr
            I.yield_stack[:] = oys
            I.points[:] = opts
            I.alls, I.popped = oalls, opop
            I.mute -= mute
            I.mute_goals = omg
            I.local = outer
            I.loop_stack.pop()
            I.loop_marks.pop()
            I.loop_objs.pop()
            restore_env(esnap)
            I.path_solver.pop()
            del I.assume[mark:]
    I.symno = hi
    return res, hi


def _cond(cs):
    return And(*cs) if cs else z3.BoolVal(True)


def merge(paths, get):
    """if-then-else over the normal paths"""
    r = None
    for cs, out, facts, eff in reversed(paths):
        v = get(eff)
        if v is None:
            return None
        r = v if r is None else ite(_cond(cs), v, r)
    return r


def mentions(t, syms, memo=None):
    if not is_z(t):
        return False
    names = {s if isinstance(s, str) else s.decl().name() for s in syms}
    return any(n in names for n in app_names(t))


def run(I, st, env, m, sq):
    def body(g):
        I.assign(st.target, sq.at(g), env, m)
        I.exec_block(st.body, env, m)
    return loop(I, sq.n, body, env, lambda w: I.assign(st.target, sq.at(w), env, m), lambda: I.exec_block(st.body, env, m))


def loop(I, n, body, env, bind, real_body):
    npm = I.npm
    n = norm(iv(n))
    I.generic += 1
    try:
        st = infer(I, n, body, env)
    finally:
        I.generic -= 1
    return finish(I, n, body, env, bind, real_body, st)


class State:
    pass


def infer(I, n, body, env):
    # ---- pass 0: what does an iteration change
    g = I.fresh('it')
    lo = I.symno
    smark, omark = Store._n, PyList._n
    paths, hi = body_paths(I, env, lo, n, g, body, 1, set())
    names, attrs, stores, lists, dicts = {}, {}, {}, {}, {}
    for cs, out, facts, eff in paths:
        for k, (e, nm, x, had) in eff['vars'].items():
            if had:
                names[k] = (e, nm)
        for k, (o, a, x) in eff['attrs'].items():
            if getattr(o, 'no', 0) <= omark:
                attrs[k] = (o, a)
        for k, (s, f) in eff['stores'].items():
            if s.id <= smark:      # created before this loop
                stores[k] = s
        for k, l in eff['lists'].items():
            lists[k] = l
        for ev in eff['rec']:
            if ev[0] in ('append', 'extend'):
                lists[id(ev[1])] = ev[1]
            elif ev[0] == 'slot':
                dicts[id(ev[1])] = ev[1]
        if eff['dicts']:
            for k, d in eff['dicts'].items():
                dicts[k] = d
    S = State()
    S.lo = lo
    S.g = g
    # ---- pass 1: symbolic state
    S.scal = []          # (kind, key, X, init)
    for k, (e, nm) in names.items():
        v = e.vars[nm]
        if scalar(v):
            X = I.fresh('acc', BOOL if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)) else (z3.RealSort() if is_z(v) and z3.is_real(v) else Z))
            S.scal.append(('var', (e, nm), X, v))
        else:
            S.scal.append(('temp', (e, nm), None, v))
    for k, (o, a) in attrs.items():
        v = o.attrs.get(a)
        if not scalar(v):
            raise Unsupported(f'attribute {a} is reassigned in a loop')
        S.scal.append(('attr', (o, a), I.fresh('acc'), v))
    S.stores = []
    for k, s in stores.items():
        nd = len(s.shape)
        isb = False
        old0 = s.fn
        probe = old0(*[z3.Int(f'_b{i}') for i in range(nd)])
        isb = isinstance(probe, bool) or (is_z(probe) and z3.is_bool(probe))
        OLD = I.fresh_fn('old', *([Z] * nd), BOOL if isb else Z)
        S.stores.append((s, OLD, old0, nd))
    S.lists = list(lists.values())
    S.dicts = list(dicts.values())
    S.lsave = [(l.items, l.seq) for l in S.lists]
    lo2 = I.symno

    def setup():
        for kind, (o, nm), X, v in S.scal:
            if kind == 'var':
                o.vars[nm] = X
            elif kind == 'temp':
                o.vars[nm] = BadDef('value carried over a loop')
            else:
                I.log_attr(o, nm)
                o.attrs[nm] = X
        for s, OLD, old0, nd in S.stores:
            I.log_store(s)
            s.fn = (lambda OLD: lambda *b: OLD(*[iv(x) for x in b]))(OLD)
        for l in S.lists:
            I.log_list(l)
            l.items, l.seq = None, Poison('list read while it is built')
    paths, hi = body_paths(I, env, lo2, n, g, body, 1, {id(l) for l in S.lists}, setup)
    normal = [p for p in paths if p[1][0] == 'normal']
    S.normal = normal
    S.exc = [p for p in paths if p[1][0] != 'normal']
    S.lo2, S.hi = lo2, hi
    # ---- closed forms
    if normal:
        new = [Implies(_cond(cs), f) for cs, out, facts, eff in paths for f in facts]
        accs = [X for kind, key, X, v in S.scal if X is not None] + [OLD().decl().name() if nd == 0 else OLD.name() for s, OLD, old0, nd in S.stores]
        S.forms = {}
        sub0 = npm_lift(I, g, lo2, hi)

        def lifted(t, i):
            return sub0(t, i)
        S.lifted = lifted
        todo = [x for x in S.scal if x[0] != 'temp']
        for x in S.scal:
            if x[0] == 'temp':
                S.forms[(id(x[1][0]), x[1][1])] = None
        news, incs = {}, {}
        for kind, (o, nm), X, v in todo:
            key = (id(o), nm)
            if kind == 'var':
                nv = merge(normal, lambda eff: (eff['vars'].get(key) or (None, None, X))[2])
            else:
                nv = merge(normal, lambda eff: (eff['attrs'].get(key) or (None, None, X))[2])
            if nv is None or not scalar(nv):
                raise Unsupported('loop variable changes its type')
            news[key] = nv
            if X.sort() == Z:
                get = (lambda eff, k=key, X=X, w='vars' if kind == 'var' else 'attrs': (eff[w].get(k) or (None, None, X))[2])
                incs[key] = merge(normal, lambda eff: norm(iv(get(eff)) - X) if scalar(get(eff)) and not isinstance(get(eff), bool) and iv(get(eff)).sort() == Z else None)
        progress = True
        pend = list(todo)
        while pend and progress:
            progress = False
            for x in list(pend):
                kind, (o, nm), X, v = x
                key = (id(o), nm)
                nv = news[key]
                others = [p[2] for p in pend if p[2] is not X] + [a for a in accs if isinstance(a, str)]
                t = zb(nv) if isinstance(nv, bool) else iv(nv)
                if X.sort() == Z and t.sort() == Z:
                    d = z3.simplify(t - X)
                    if mentions(d, [X] + others) and incs.get(key) is not None:
                        d = z3.simplify(iv(incs[key]))
                    if not mentions(d, [X] + others):
                        d2 = subst_forms(d, S, g)
                        S.forms[key] = (lambda d2, v: lambda k: norm(iv(v) + SUM(lambda j: lifted(d2, j), k)))(d2, v)
                        pend.remove(x)
                        progress = True
                        continue
                if not mentions(t, [X] + others):
                    d2 = subst_forms(t, S, g)
                    S.forms[key] = (lambda d2, v: lambda k: ite(norm(iv(k) <= 0), v, lifted(d2, norm(iv(k) - 1))))(d2, v)
                    pend.remove(x)
                    progress = True
        if pend:
            raise Unsupported(f'no closed form for the loop variable {pend[0][1][1]}')
        S.sform = []
        for s, OLD, old0, nd in S.stores:
            S.sform.append(store_form(I, S, s, OLD, old0, nd, normal, g, n))
        facts_at = lambda i: [lifted(subst_all(f, S, g), i) for f in new]
        S.facts_at = facts_at
    return S


def npm_lift(I, g, lo, hi):
    lf = Lifter(lambda n: lo < sym_number(n) <= hi and str(lo) not in n.split('^')[1:], lambda n: n + f'^{lo}', g)
    return lambda t, i: norm(lf(t, i)) if is_z(t) else t


def subst_forms(t, S, g):
    """accumulators -> their closed form at g"""
    pairs = []
    for kind, (o, nm), X, v in S.scal:
        f = S.forms.get((id(o), nm))
        if X is not None and f is not None and mentions(t, [X]):
            e = f(g)
            e = (zb(e) if z3.is_bool(X) else iv(e))
            pairs.append((X, e))
    return z3.substitute(t, *pairs) if pairs else t


def subst_all(t, S, g):
    t = subst_forms(t, S, g)
    for (s, OLD, old0, nd), F in zip(S.stores, S.sform):
        if mentions(t, [OLD.name()]):
            vs = [z3.Var(i, Z) for i in range(nd)]
            e = F(g, *vs)
            e = zb(e) if OLD.range() == BOOL else iv(e)
            t = z3.substitute_funs(t, (OLD, e))
            if mentions(t, [OLD.name()]):
                raise Unsupported('a sum over an array that the loop changes')
    return t


def L_contains(t, x):
    if t.eq(x):
        return True
    return any(L_contains(c, x) for c in t.children())


def store_form(I, S, s, OLD, old0, nd, normal, g, n):
    bs = [z3.Int(f'_b{i}') for i in range(nd)]

    def at(eff):
        x = eff['stores'].get(id(s))
        f = x[1] if x else (lambda *b: OLD(*[iv(y) for y in b]))
        r = f(*bs)
        return zb(r) if OLD.range() == BOOL else iv(r)
    t = merge(normal, at)
    t = z3.simplify(t)
    oldb = OLD(*bs)

    def written(x):
        """condition under which x is not the old element"""
        if x.eq(oldb):
            return False
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            a, b = written(x.arg(1)), written(x.arg(2))
            return norm(Or(And(x.arg(0), a), And(z3.Not(x.arg(0)), b)))
        return True
    C = written(t)
    if C is False:
        return lambda k, *b: old0(*b)
    C = zb(C)
    V = t

    # accumulation: the element grows by an amount that does not depend on its current value
    def delta(x, sg):
        ob = z3.simplify(z3.substitute(oldb, *sg)) if sg else oldb
        if x.eq(oldb) or x.eq(ob):
            return z3.IntVal(0)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c = x.arg(0)
            eqs = []
            for q in (c.children() if z3.is_and(c) else [c]):
                if z3.is_eq(q):
                    for u, w in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
                        if any(u.eq(b) for b in bs) and not any(L_contains(w, b) for b in bs):
                            eqs.append((u, w))
                            break
            a, b = delta(x.arg(1), sg + eqs), delta(x.arg(2), sg)
            return None if a is None or b is None else z3.If(x.arg(0), a, b)
        d = z3.simplify((z3.substitute(x, *sg) if sg else x) - ob)
        return None if L_contains(d, oldb) or L_contains(d, ob) else d
    if OLD.range() == Z:
        D = delta(t, [])
        if D is not None:
            vs = [z3.Var(i, Z) for i in range(nd)]
            e = iv(old0(*vs))
            D2 = z3.substitute_funs(subst_forms(z3.simplify(D), S, g), (OLD, e)) if mentions(D, [OLD.name()]) else subst_forms(z3.simplify(D), S, g)
            if mentions(D2, [OLD.name()]):
                raise Unsupported('a sum over an array that the loop changes')

            def FS(k, *b):
                def f(j):
                    r = S.lifted(D2, j)
                    return norm(z3.substitute(r, *[(p, iv(q)) for p, q in zip(bs, b)])) if is_z(r) else r
                return norm(iv(old0(*b)) + SUM(f, k))
            return FS
    # the written index coordinate equals the iteration number?
    dim = None
    for d in range(nd):
        I.path_solver.push()
        I.path_solver.add(g >= 0, g < iv(n), C, bs[d] != g)
        I.path_solver.set('timeout', 1500)
        r = I.path_solver.check()
        I.path_solver.pop()
        if r == z3.unsat:
            dim = d
            break

    def rep_old(x, b):
        if mentions(x, [OLD.name()]):
            vs = [z3.Var(i, Z) for i in range(nd)]
            e = old0(*vs)
            x = z3.substitute_funs(x, (OLD, zb(e) if OLD.range() == BOOL else iv(e)))
            if mentions(x, [OLD.name()]):
                raise Unsupported('a sum over an array that the loop changes')
        return x
    C2, V2 = rep_old(subst_forms(C, S, g), bs), rep_old(subst_forms(V, S, g), bs)

    def inst(x, i, b):
        r = S.lifted(x, i)
        return norm(z3.substitute(r, *[(p, iv(q)) for p, q in zip(bs, b)])) if is_z(r) else r
    if dim is not None:
        def F(k, *b):
            i = b[dim]
            return ite(norm(And(iv(i) >= 0, iv(i) < iv(k), inst(C2, i, b))), inst(V2, i, b), old0(*b))
        return F
    wr = I.fresh_fn('wr', *([Z] * nd), Z)
    qs = [fresh_int('q') for _ in range(nd)]
    q = fresh_int('q')
    w = wr(*qs)
    I.add(z3.ForAll(qs, z3.And(0 <= w, w <= iv(n), z3.Implies(w < iv(n), zb(inst(C2, w, qs)))), patterns=[w]) if nd else True)
    I.add(z3.ForAll(qs + [q], z3.Implies(z3.And(0 <= q, q < iv(n), zb(inst(C2, q, qs))), w <= q)))
    I.scatters.append((wr, lambda b, i: inst(C2, i, b), n, s))

    def F(k, *b):
        x = wr(*[iv(y) for y in b])
        return ite(norm(x < iv(k)), inst(V2, x, b), old0(*b))
    F.wr = wr
    return F


def set_state(I, S, k):
    for kind, (o, nm), X, v in S.scal:
        f = S.forms.get((id(o), nm))
        if kind == 'temp' or f is None:
            o.vars[nm] = BadDef('value carried over a loop')
        elif kind == 'var':
            o.vars[nm] = f(k)
        else:
            I.log_attr(o, nm)
            o.attrs[nm] = f(k)
    for (s, OLD, old0, nd), F in zip(S.stores, S.sform):
        I.log_store(s)
        s.fn = (lambda F, k: lambda *b: F(k, *b))(F, k)
        s.writes += 1


def finish(I, n, body, env, bind, real_body, S):
    g = S.g
    if not S.normal:                       # at most one iteration
        if not I.decide(iv(n) > 0):
            return False
        bind(z3.IntVal(0))
        try:
            real_body()
        except BreakEx:
            return True
        raise Unsupported('a loop body that never completes')
    # pass 2: from the state described by the closed forms, one iteration
    for (s, OLD, old0, nd), F in zip(S.stores, S.sform):
        pass

    def setup():
        set_state(I, S, g)
        for l in S.lists:
            I.log_list(l)
            l.items, l.seq = None, Poison('list read while it is built')

    I.generic += 1
    kept = []

    def body2(gg):
        body_end = None
        try:
            body(gg)
        except ContinueEx:
            pass
        # what the iteration established (every obligation of this path has been emitted without it)
        for f in S.facts_at(g):
            I.add(f)
        for c in I.local.conds:        # (the lifted symbols at g are those of this iteration)
            if is_z(c):
                I.add(S.lifted(c, g))
        # invariant kept
        for kind, (o, nm), X, v in S.scal:
            f = S.forms.get((id(o), nm))
            if f is None or kind == 'temp':
                continue
            now = o.vars[nm] if kind == 'var' else o.attrs[nm]
            nxt = f(norm(gg + 1))
            I.prove(f'inferred invariant of {nm} kept', lift_eq(I, S, now, nxt, gg), sum_steps(nxt))
        for (s, OLD, old0, nd), F in zip(S.stores, S.sform):
            b = [I.fresh('b') for _ in range(nd)]
            now = s.fn(*b)
            nxt = F(norm(gg + 1), *b)
            hints = []
            if getattr(F, 'wr', None) is not None:
                hints = [x for x in scatter_hints(I, F.wr, b, gg)]
            I.prove('inferred invariant of an array kept', z3.Implies(And(*[rng(x, d) for x, d in zip(b, s.shape)]), zb(lift_eq(I, S, now, nxt, gg))), hints)
    try:
        paths, hi = body_paths(I, env, S.lo2, n, g, body2, 0, {id(l) for l in S.lists}, setup)
    finally:
        I.generic -= 1
    normal = [p for p in paths if p[1][0] == 'normal']
    exc = [p for p in paths if p[1][0] != 'normal']
    sub = S.lifted
    # lists
    S.lform = []
    full = iv(n)
    for l, (items, seq) in zip(S.lists, S.lsave):
        l0 = Seq(len(items), (lambda it: lambda i: it[conc(i)] if conc(i) is not None else I.npm.pick(I, it, i))(items)) if items is not None else seq
        vals, cnd, pieces, many = [], [], [], False
        for cs, out, facts, eff in normal:
            evs = [e for e in eff['rec'] if e[0] in ('append', 'extend') and e[1] is l]
            if eff['listlog'].get(id(l), 0) > 1:
                raise Unsupported('a list is changed in a loop, not only extended')
            if len(evs) > 1 or any(e[0] == 'extend' for e in evs):
                many = True
            if evs:
                vals.append((_cond(cs), evs[0][2]))
            else:
                cnd.append(_cond(cs))
            piece = Seq(0, lambda i: None)
            for e in evs:
                piece = I.npm.concat_seqs(I, piece, e[2] if e[0] == 'extend' else I.to_seq((e[2],)))
            pieces.append((_cond(cs), piece))
        if many:
            inner = pieces[-1][1]
            for c, x in reversed(pieces[:-1]):
                inner = Seq(norm(ite(zb(c), iv(x.n), iv(inner.n))), (lambda c, x, y: lambda i: I.npm.val_ite(I, c, x.at(i), y.at(i)))(c, x, inner)) if conc(x.n) != 0 and conc(inner.n) != 0 else \
                    Seq(norm(ite(zb(c), iv(x.n), iv(inner.n))), x.at if conc(inner.n) == 0 else inner.at)

            def form(k, l0=l0, inner=inner):
                return I.npm.concat_seqs(I, l0, I.npm.flatten(I, Seq(norm(iv(k)), lambda i: I.npm.val_map(inner, lambda t: sub(t, i)))))
            S.lform.append((l, form))
            continue
        if not vals:
            S.lform.append((l, lambda k, l0=l0: l0))
            continue
        val = vals[-1][1]
        for c, x in reversed(vals[:-1]):
            val = I.npm.val_ite(I, c, x, val)
        if not cnd:
            S.lform.append((l, lambda k, l0=l0, val=val: I.npm.concat_seqs(I, l0, Seq(norm(iv(k)), lambda i: I.npm.val_map(val, lambda t: sub(t, i)), {'mapped': True}))))
        else:
            c = Or(*[x for x, _ in vals])
            E = Enum(lambda i: zb(sub(zb(c), i)))
            I.add(L.enum_facts(E, n))
            def form(k, l0=l0, val=val, E=E):
                r = Seq(E.cnt(k), lambda j: I.npm.val_map(val, lambda t: sub(t, E.at(iv(j)))), {'filtered': (E, k, None)})
                I.filtered.append(r)
                return I.npm.concat_seqs(I, l0, r)
            S.lform.append((l, form))
    gd = []
    for d in S.dicts:
        if exc:
            raise Unsupported('leaving a loop that builds a dict')
        if d.items or d.sym is not None:
            raise Unsupported('dict changed in a loop')
        evs = []
        for cs, out, facts, eff in normal:
            e = [x for x in eff['rec'] if x[0] == 'slot' and x[1] is d]
            if len(e) != 1:
                raise Unsupported('dict of lists with conditional appends')
            evs.append((_cond(cs), e[0][2], e[0][3]))
        key, val = evs[-1][1], evs[-1][2]
        for c, k_, v_ in reversed(evs[:-1]):
            key, val = I.npm.val_ite(I, c, k_, key), I.npm.val_ite(I, c, v_, val)
        gd.append((d, key, val))
    # facts about every iteration
    q = fresh_int('q')
    for cs, out, facts, eff in paths:
        for f in facts:
            ff = z3.Implies(_cond(cs), f) if cs else f
            fq = sub(ff, q)
            if is_z(fq) and mentions(fq, [q]):
                I.add(z3.ForAll([q], z3.Implies(And(0 <= q, q < iv(n)), fq)))
    R = lambda i: Or(*[zb(sub(zb(_cond(cs)), i)) for cs, out, facts, eff in exc])
    if exc:
        w = I.fresh('stop')
        which = I.choose(2, lambda k: True)
        if which == 1:
            I.add(0 <= w, w < iv(n), R(w), FA(lambda j: Implies(And(0 <= j, j < w), Not(R(j)))))
            I.points.append(w)
            set_state(I, S, w)
            for l, f in S.lform:
                I.npm.list_replace(I, l, f(w))
            bind(w)
            try:
                real_body()
            except ContinueEx:
                raise PathEnd()
            except BreakEx:
                return True
            raise PathEnd()
        I.add(FA(lambda j: Implies(And(0 <= j, j < iv(n)), Not(R(j)))))
    set_state(I, S, norm(full))
    for l, f in S.lform:
        I.npm.list_replace(I, l, f(norm(full)))
    for d, key, val in gd:
        I.log_dict(d)
        d.sym = I.npm.GroupDict(I, n, lambda t: sub(key, t), lambda t: I.npm.val_map(val, lambda x: sub(x, t)))


def sum_steps(t):
    """one more term of the sums in t"""
    out = []
    if not is_z(t):
        return out
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().name() in REG.decl2sum:
            s = REG.decl2sum[x.decl().name()]
            *p, k = x.children()
            k1 = z3.simplify(k - 1)
            out.append(z3.Implies(k1 >= 0, x == x.decl()(*p, k1) + s.at(p, k1)))
        st += x.children()
    return out


def lift_eq(I, S, now, nxt, g):
    if is_z(now):
        now = S.lifted(now, g)
    return Eq(now, nxt)


def scatter_hints(I, wr, b, g):
    out = []
    for w, C, n, s in I.scatters:
        if w.eq(wr):
            out.append(z3.Implies(And(0 <= g, g < iv(n), zb(C(b, g))), w(*b) <= g))
            x = w(*b)
            out.append(z3.And(0 <= x, x <= iv(n), z3.Implies(x < iv(n), zb(C(b, x)))))
    return out


class Tok:
    def __init__(self, parts):
        self.parts = parts

    def add(self, I, b):
        if not isinstance(b, Tok):
            raise Unsupported('reduce')
        return Tok(self.parts + b.parts)


def reduce_(I, a):
    f, it = a[0], a[1]
    sq = I.to_seq(it)
    c = conc(sq.n)
    if c is not None and c <= 32:
        items = [sq.at(i) for i in range(c)]
        acc = a[2] if len(a) > 2 else items.pop(0)
        for x in items:
            acc = I.call(f, [acc, x], {})
        return acc
    if len(a) < 3:
        raise Unsupported('reduce without initial value')
    x, y = Tok(['x']), Tok(['y'])
    r = I.call(f, [x, y], {})
    if not isinstance(r, Tok) or r.parts not in (['x', 'y'], ['y', 'x']):
        raise Unsupported('reduce')
    init = I.to_seq(a[2])
    if r.parts == ['y', 'x']:
        n = sq.n
        src = sq
        sq = Seq(n, lambda i: src.at(norm(iv(n) - 1 - iv(i))))
    fl = I.npm.flatten(I, Seq(sq.n, lambda i: I.to_seq(sq.at(i))))
    fl.tag['reduced'] = sq
    if conc(init.n) == 0:
        return PyList(seq=fl)
    return PyList(seq=I.npm.concat_seqs(I, init, fl) if r.parts == ['x', 'y'] else I.npm.concat_seqs(I, fl, init))


def sorted_facts(I, r, k):
    key = k.get('key')
    if not isinstance(k.get('reverse', False), bool):
        raise Unsupported('sorted(reverse=...)')
    if isinstance(key, I.npm.CmpKey):
        I.sorted_by.append((r, key.f, k.get('reverse', False)))
    elif key is None:
        pass
