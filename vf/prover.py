"""Discharges obligations: z3 on  assumptions + lemma axioms |- goal,  in a pool of forked workers."""
import os, pickle, select, signal, time, struct
import z3
from core import *
import lemmas as L


def tidy(formulas):
    out = []
    for f in formulas:
        if f is True:
            continue
        if f is False:
            f = z3.BoolVal(False)
        out.append(f)
    return out


def symbols(t, memo):
    """uninterpreted symbols occurring in t"""
    out = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    return out


def relevant(ctx, goal, rounds):
    """assumptions connected to the goal through shared symbols (sound: dropping assumptions)"""
    syms = symbols(goal, None)
    cs = [(c, symbols(c, None)) for c in ctx]
    picked = [False] * len(cs)
    for _ in range(rounds):
        new = set()
        for i, (c, s) in enumerate(cs):
            if not picked[i] and (s & syms or not s):
                picked[i] = True
                new |= s
        if not new - syms:
            break
        syms |= new
    return [c for (c, s), p in zip(cs, picked) if p]


def extra_axioms(forms):
    """meaning of POW2 / BAND / BIT / BLEN, if they occur"""
    s = set()
    for f in forms:
        s |= symbols(f, None)
    out = []
    x, y = z3.Ints('_x _y')
    if 'POW2' in s:
        out.append(z3.ForAll([x], z3.And(POW2(x) >= 1), patterns=[POW2(x)]))
        out.append(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y == x + 1), POW2(y) == 2 * POW2(x)),
                             patterns=[z3.MultiPattern(POW2(x), POW2(y))]))
        out.append(POW2(0) == 1)
    if 'SHR' in s:
        out.append(z3.ForAll([x], SHR(x, 0) == x, patterns=[SHR(x, 0)]))
        z = z3.Int('_z')
        out.append(z3.ForAll([z, x, y], z3.Implies(z3.And(z >= 0, x >= 0, y == x + 1), SHR(z, y) == SHR(z, x) / 2),
                             patterns=[z3.MultiPattern(SHR(z, x), SHR(z, y))]))
        out.append(z3.ForAll([z, x], z3.Implies(z3.And(z >= 0, x >= 0), SHR(z, x) >= 0), patterns=[SHR(z, x)]))
        out.append(z3.ForAll([z, x], z3.Implies(z3.And(z >= 0, x >= 0), BIT(z, x) == SHR(z, x) % 2), patterns=[SHR(z, x)]))
    if 'BIT' in s:
        z = z3.Int('_z')
        out.append(z3.ForAll([z, x], z3.Implies(z3.And(z >= 0, x >= 0), z3.And(0 <= BIT(z, x), BIT(z, x) <= 1)), patterns=[BIT(z, x)]))
        out.append(z3.ForAll([x], z3.Implies(x >= 0, BIT(0, x) == 0), patterns=[BIT(0, x)]))
    if 'BAND' in s:
        out.append(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y >= 0), z3.And(0 <= BAND(x, y), BAND(x, y) <= x, BAND(x, y) <= y,
                                                                             BAND(x, y) == BAND(y, x), z3.Implies(z3.And(x == 1, y == 1), BAND(x, y) == 1))), patterns=[BAND(x, y)]))
    return out


def strip_goal(goal):
    """goal = forall xs. (A -> B): fresh constants for xs -> (constants, list of hypotheses, conclusion)"""
    consts, hyps = [], []
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            cs = [z3.FreshConst(goal.var_sort(i), 'sk') for i in range(goal.num_vars())]
            goal = z3.substitute_vars(goal.body(), *reversed(cs))
            consts += cs
        elif z3.is_implies(goal):
            hyps.append(goal.arg(0))
            goal = goal.arg(1)
        else:
            return consts, hyps, goal


def flat(fs):
    out = []
    for f in fs:
        if z3.is_and(f):
            out += flat(f.children())
        elif z3.is_not(f) and z3.is_or(f.arg(0)):
            out += flat([z3.Not(c) for c in f.arg(0).children()])
        elif z3.is_not(f) and z3.is_quantifier(f.arg(0)) and f.arg(0).is_exists():
            q = f.arg(0)
            vs = [z3.FreshConst(q.var_sort(i), 'ne') for i in range(q.num_vars())]
            out.append(z3.ForAll(vs, z3.Not(z3.substitute_vars(q.body(), *reversed(vs)))))
        else:
            out.append(f)
    return out


def nonlinear(t):
    """a product of two terms that are not numbers (outside quantifiers' own definitions too)"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(not z3.is_int_value(c) for c in x.children()) > 1:
                return True
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV) and not z3.is_int_value(x.arg(1)):
                return True
            stack.extend(x.children())
    return False


def quantified(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def instances(ctx, points, limit=400):
    """ground instances of universally quantified assumptions at the given integer terms"""
    import itertools
    out = []
    for f in flat(ctx):
        if z3.is_quantifier(f) and f.is_forall():
            n = f.num_vars()
            if any(f.var_sort(i) != z3.IntSort() for i in range(n)) or n > 2:
                continue
            pts = points if n == 1 else points[:8]
            for t in itertools.product(pts, repeat=n):
                out.append(z3.substitute_vars(f.body(), *reversed(t)))
                if len(out) > limit:
                    return out
    return out


def discharge(ob, timeout=10.0):
    """-> (status, seconds, method)"""
    t0 = time.time()
    ctx = tidy(ob.ctx)
    goal = ob.goal
    if z3.is_true(z3.simplify(goal)):
        return 'proved', 0.0, 'simplifier'
    sk, hyps, concl = strip_goal(goal)
    ctx = ctx + hyps
    goal = concl
    neg = z3.Not(goal)
    points = [p for p in sk if z3.is_int(p)] + [iv(p) for p in getattr(ob, 'points', None) or []]
    inst = instances(ctx, points)
    ctx = ctx + inst
    stages = ob.stages if getattr(ob, 'stages', None) else [('ground', 0, 0.05), ('rel', 2, 0.15), ('lin', 0, 0.15), ('all', 0, 0.3),
                                                            ('mbqi', 0, 0.25), ('seed', 0, 0.25)]
    nonlin = nonlinear(goal)
    last = 'unknown'
    for kind, r, frac in stages:
        # dropping assumptions is sound: 'ground' keeps the quantifier-free ones, 'lin' those without products of unknowns
        if kind == 'rel':
            forms = relevant(ctx, goal, r)
        elif kind == 'ground':
            forms = [f for f in flat(ctx) if not quantified(f) and (nonlin or not nonlinear(f))]
        elif kind == 'lin':
            if nonlin:
                continue
            forms = [f for f in flat(ctx) if not nonlinear(f)]
            if len(forms) == len(flat(ctx)):
                continue
        else:
            forms = ctx
        forms = forms + [neg]
        if kind == 'ground':
            ax = []
        else:
            ax = L.axioms_for(forms)
            ax += extra_axioms(forms + ax)
        s = z3.SimpleSolver() if kind == 'simple' else z3.Solver()
        s.set('timeout', int(1000 * timeout * frac))
        if kind != 'mbqi':
            s.set('smt.mbqi', False)
        if kind == 'seed':
            s.set('smt.random_seed', 17)
            s.set('smt.arith.solver', 2)
        s.add(*forms)
        s.add(*ax)
        try:
            res = s.check()
        except z3.Z3Exception as e:
            last = f'error {e}'
            continue
        if res == z3.unsat:
            return 'proved', time.time() - t0, 'z3/' + kind
        if res == z3.sat and kind in ('rel', 'ground', 'lin'):
            last = 'sat without all assumptions'
            continue
        if res == z3.sat:
            return 'refuted', time.time() - t0, str(s.model())[:2000]
        last = s.reason_unknown()
    return 'unknown', time.time() - t0, last


SLOTS = None            # a semaphore shared by the pools of several functions: solvers at work at the same time


def run_pool(obls, procs=7, timeout=10.0, wall=600.0):
    """sets status/time/by on the obligations; workers are forked, obligations are addressed by index"""
    n = len(obls)
    if n == 0:
        return
    procs = max(1, min(procs, n))
    # work queue through a pipe of indices
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    nxt = ctx.Value('i', 0)
    pipes = []
    for w in range(procs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                while True:
                    with nxt.get_lock():
                        i = nxt.value
                        nxt.value += 1
                    if i >= n:
                        break
                    if SLOTS is not None:
                        SLOTS.acquire()
                    try:
                        res = discharge(obls[i], timeout)
                    except Exception as e:      # noqa
                        res = ('unknown', 0.0, f'{type(e).__name__}: {e}')
                    finally:
                        if SLOTS is not None:
                            SLOTS.release()
                    b = pickle.dumps((i, res))
                    os.write(wr, struct.pack('i', len(b)) + b)
            finally:
                os._exit(0)
        os.close(wr)
        pipes.append((r, pid))
    bufs = {r: b'' for r, _ in pipes}
    live = set(bufs)
    end = time.time() + wall
    while live:
        rs, _, _ = select.select(list(live), [], [], max(0.1, min(5, end - time.time())))
        if time.time() > end:
            break
        for r in rs:
            b = os.read(r, 65536)
            if not b:
                live.discard(r)
                continue
            bufs[r] += b
            while len(bufs[r]) >= 4:
                ln = struct.unpack('i', bufs[r][:4])[0]
                if len(bufs[r]) < 4 + ln:
                    break
                i, res = pickle.loads(bufs[r][4:4 + ln])
                bufs[r] = bufs[r][4 + ln:]
                obls[i].status, obls[i].time, obls[i].by = res
    for r, pid in pipes:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        os.close(r)
    for o in obls:
        if o.status is None:
            o.status, o.time, o.by = 'unknown', 0.0, 'time budget'


def ground_sums(formulas, limit=12):
    """ground applications of sum symbols: [(term, f, n)]"""
    out, seen = [], set()
    free = {}

    def open_(t):
        k = t.get_id()
        if k not in free:
            free[k] = True if z3.is_var(t) else any(open_(c) for c in t.children()) if z3.is_app(t) else z3.is_quantifier(t)
        return free[k]
    for g in formulas:
        stack = [g]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                s = REG.decl2sum.get(x.decl().name())
                if s is not None and not open_(x):
                    a = x.children()
                    out.append((x, (lambda j, s=s, p=a[:-1]: s.at(p, j)), a[-1]))
                    if len(out) >= limit:
                        return out
                stack.extend(x.children())
    return out


def add_sum_hints(ob, limit=24):
    """before a last attempt: extensionality (and one step) between the sums of the goal and those of goal and context.
    All of them are instances of proved lemmas."""
    sk, hyps, concl = strip_goal(ob.goal)
    ctx = tidy(ob.ctx)
    mine = ground_sums([concl], 6)
    if not mine:
        return 0
    ob.ctx, ob.goal = list(ob.ctx) + hyps, concl
    others = mine + [t for t in ground_sums(list(reversed(hyps)) + [c for c in reversed(ctx) if not z3.is_quantifier(c)], 30)
                     if not any(t[0].eq(m[0]) for m in mine)]
    new = []
    for i, (x, f, n) in enumerate(mine):
        for y, g, m in others[i + 1:]:
            d = z3.simplify(n - m)
            if not z3.is_int_value(d) or abs(d.as_long()) > 1 or len(new) >= limit:
                continue
            d = d.as_long()
            lo = m if d > 0 else n
            if d > 0:
                new.append(L.step(f, m))
            elif d < 0:
                new.append(L.step(g, n))
            new.append(L.ext(f, g, lo))
    ob.ctx = ob.ctx + new
    return len(new)
