"""Model of the builtins and of the part of numpy / itertools / heapq / collections that /repo uses."""
import ast
import z3
from core import *
import lemmas as L


def _interp():
    import interp
    return interp


import sys


def V():
    return sys.modules['interp']


# ------------------------------------------------------------------------------------------------ small helpers
def T(I_, c):
    return I_.entails(c)


def dim_eq(I_, a, b, what):
    a, b = norm(a), norm(b)
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        if ca != cb:
            I_.prove(f'shapes agree ({what})', False)
            raise V().PathEnd()
        return
    if iv(a).eq(iv(b)):
        return
    I_.prove(f'shapes agree ({what})', iv(a) == iv(b))


def same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return iv(norm(a)).eq(iv(norm(b)))


def arr_size(a):
    n = 1
    for s in a.shape:
        if isinstance(n, int) and n == 1:
            n = s
        elif isinstance(s, int) and s == 1:
            pass
        else:
            n = iv(n) * iv(s)
    return norm(n)


def val_ite(I_, c, a, b):
    c = norm(c)
    if c is True:
        return a
    if c is False:
        return b
    if V().scalar(a) and V().scalar(b):
        return ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(val_ite(I_, c, x, y) for x, y in zip(a, b))
    if isinstance(a, V().Arr) and isinstance(b, V().Arr) and a.ndim == b.ndim:
        fa, fb = a.snap(), b.snap()
        shape = [x if same(x, y) else ite(c, x, y) for x, y in zip(a.shape, b.shape)]
        return V().Arr(shape, lambda *ix: ite(c, fa(*ix), fb(*ix)), dt=a.dt)
    if isinstance(a, V().Seq) and isinstance(b, V().Seq):
        return V().Seq(norm(ite(c, a.n, b.n)), lambda i: val_ite(I_, c, a.at(i), b.at(i)))
    if a is b:
        return a
    if hasattr(a, 'val_ite'):
        return a.val_ite(I_, c, b)
    raise Unsupported(f'conditional value of type {type(a).__name__}')


def pick(I_, items, i):
    """items[i] for a concrete list and a symbolic index"""
    if not items:
        raise Unsupported('symbolic index into an empty list')
    r = items[-1]
    for k in range(len(items) - 2, -1, -1):
        r = val_ite(I_, iv(i) == k, items[k], r)
    return r


def val_map(v, f):
    """apply f to every term inside a value"""
    M = V()
    if v is None or isinstance(v, (str, bool, int)):
        return v
    if is_z(v):
        return norm(f(v))
    if isinstance(v, tuple):
        return tuple(val_map(x, f) for x in v)
    if isinstance(v, M.Arr):
        g = v.snap()
        return M.Arr([val_map(s, f) for s in v.shape], lambda *ix: val_map(g(*ix), f), dt=v.dt)
    if isinstance(v, M.Seq):
        return M.Seq(val_map(v.n, f), lambda i: val_map(v.at(i), f), {k: x for k, x in v.tag.items() if k == 'listlike'})
    if isinstance(v, M.PyList):
        if v.is_conc():
            return M.PyList([val_map(x, f) for x in v.items])
        return M.PyList(seq=val_map(v.seq, f))
    if isinstance(v, M.NTVal):
        return M.NTVal(v.cls, [val_map(x, f) for x in v.vals])
    if isinstance(v, M.Opaque):
        return v
    if isinstance(v, M.Obj):
        o = M.Obj(v.cls)
        o.attrs = {k: val_map(x, f) for k, x in v.attrs.items()}
        return o
    if isinstance(v, M.RangeV):
        return M.RangeV(val_map(v.lo, f), val_map(v.hi, f), v.step)
    if hasattr(v, 'val_map'):
        return v.val_map(f)
    raise Unsupported(f'value {type(v).__name__} depends on a loop index')


def map_seq(I_, sq, fn):
    """Seq of fn(element): fn is run once on a generic element, proof obligations inside hold for every index"""
    M = V()
    n = sq.n
    c = conc(n)
    if c is not None and c <= 64:
        items = [fn(sq.at(i)) for i in range(c)]
        return M.Seq(c, lambda i: items[conc(i)] if conc(i) is not None else pick(I_, items, i), {'items': items})
    g = I_.fresh('gen')
    lo = I_.symno
    mark = len(I_.assume)
    I_.path_solver.push()
    old_watch = I_.generic
    I_.generic = old_watch + 1
    old_local, I_.local = I_.local, None
    oldj, I_.journal = I_.journal, []
    made = (M.Store._n, M.PyList._n)
    try:
        I_.add(g >= 0, g < iv(n))
        k0 = len(I_.assume)
        try:
            val = fn(sq.at(g))
        except M.PyRaise as e:
            raise Unsupported('exception inside a comprehension')
        new = I_.assume[k0:]
    finally:
        I_.generic = old_watch
        I_.local = old_local
        I_.path_solver.pop()
        del I_.assume[mark:]
        log, I_.journal = I_.journal, oldj
        if oldj is not None:
            oldj += log
    for what, undo in log:
        if not (what[1].id > made[0] if what[0] == 'store' else getattr(what[1], 'no', 0) > made[1]):
            raise Unsupported(f'a comprehension that changes a {what[0]}')
    hi = I_.symno
    sub = lift(I_, g, lo, hi, new, n)
    return M.Seq(n, lambda i: val_map(val, lambda t: sub(t, iv(i))), {'mapped': True})


def lift(I_, g, lo, hi, new, n):
    """symbols created for the generic index g become functions of the index; facts become universally quantified"""
    sub = Lifter(lambda nm: lo < sym_number(nm) <= hi and str(lo) not in nm.split('^')[1:], lambda nm: nm + f'^{lo}', g)
    q = fresh_int('q')
    for f in new:
        I_.add(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < iv(n)), sub(f, q))))
    return sub


def seq_of_list(I_, v):
    M = V()
    if v.is_conc():
        items = v.items
        return M.Seq(len(items), lambda i: items[conc(i)] if conc(i) is not None else pick(I_, items, i), {'items': items})
    return v.seq


def to_seq(I_, v):
    M = V()
    if isinstance(v, M.Seq):
        return v.it.sq if v.it is not None else v
    if isinstance(v, (tuple, list)):
        v = list(v)
        return M.Seq(len(v), lambda i: v[conc(i)] if conc(i) is not None else pick(I_, v, i), {'items': v})
    if isinstance(v, M.PyList):
        s = seq_of_list(I_, v)
        if v.is_conc():
            items = list(v.items)
            return M.Seq(len(items), lambda i: items[conc(i)] if conc(i) is not None else pick(I_, items, i), {'items': items})
        return s
    if isinstance(v, M.NTVal):
        return to_seq(I_, tuple(v.vals))
    if isinstance(v, M.Arr):
        if v.ndim == 0:
            raise Unsupported('iteration over a scalar')
        if v.ndim == 1:
            f = v.snap()
            return M.Seq(v.shape[0], lambda i: f(i), {'arr': v})
        return M.Seq(v.shape[0], lambda i: arr_getitem(I_, v, (i,), check=False), {'arr': v})
    if isinstance(v, M.RangeV):
        lo, hi = v.lo, v.hi
        if v.step == 1:
            n = range_len(I_, lo, hi)
            return M.Seq(n, lambda i: norm(iv(lo) + iv(i)) if not (conc(lo) is not None and conc(i) is not None) else conc(lo) + conc(i))
        if v.step == -1:
            n = range_len(I_, norm(iv(hi)), norm(iv(lo)))
            return M.Seq(n, lambda i: norm(iv(lo) - iv(i)))
        raise Unsupported('range step')
    if isinstance(v, M.PySet):
        return set_seq(I_, v)
    if isinstance(v, M.PyDict):
        if v.sym is not None:
            return v.sym.keys_seq()
        return to_seq(I_, list(v.items))
    if isinstance(v, M.GenObj):
        c = I_.contract_of(v.fn)
        items = []
        I_.run_gen(v, items.append)
        return to_seq(I_, items)
    if isinstance(v, M.StarSeq):
        return v.sq
    if isinstance(v, str):
        return to_seq(I_, list(v))
    if hasattr(v, 'to_seq'):
        return v.to_seq(I_)
    raise Unsupported(f'iteration over {type(v).__name__}')


def range_len(I_, lo, hi):
    d = norm(iv(hi) - iv(lo))
    if isinstance(d, int):
        return max(0, d)
    if T(I_, d >= 0):
        return d
    return norm(z3.If(d >= 0, d, 0))


def truth(I_, v):
    if hasattr(v, 'truth'):
        return v.truth(I_)
    raise Unsupported(f'truth value of {type(v).__name__}')


def index_term(I_, i):
    if isinstance(i, (int, bool)):
        return int(i)
    if is_z(i) and z3.is_int(i):
        return norm(i)
    if isinstance(i, V().Arr) and i.ndim == 0:
        return norm(i.get())
    raise Unsupported(f'index of type {type(i).__name__}')


def norm_index(I_, i, n, what, check=True):
    """index i into a dimension of size n, python semantics of negative indices"""
    i = index_term(I_, i)
    cn = conc(n)
    if isinstance(i, int):
        if i >= 0:
            if check and not (cn is not None and i < cn):
                I_.prove(f'index in bounds ({what})', iv(n) > i)
            return i
        if check:
            I_.prove(f'index in bounds ({what})', iv(n) >= -i)
        return norm(iv(n) + i)
    if check:
        I_.prove(f'index in bounds ({what})', z3.And(-iv(n) <= i, i < iv(n)))
        if T(I_, i >= 0):
            return i
        return norm(z3.If(i < 0, i + iv(n), i))
    return i


def slice_bounds(I_, s, n):
    if s.step is not None and conc(s.step) not in (1, -1):
        raise Unsupported('slice step')
    if s.step is not None and conc(s.step) == -1:
        if s.lo is not None or s.hi is not None:
            raise Unsupported('reversed slice with bounds')
        return 'rev', n

    def clamp(x, default):
        if x is None:
            return default
        x = index_term(I_, x)
        if isinstance(x, int) and x >= 0:
            c = conc(n)
            if c is not None:
                return min(x, c)
            if x == 0 or T(I_, iv(n) >= x):
                return x
            return norm(z3.If(iv(n) >= x, x, iv(n)))
        if isinstance(x, int):
            x = iv(n) + x
            if T(I_, x >= 0):
                return norm(x)
            return norm(z3.If(x >= 0, x, 0))
        if not T(I_, x >= 0):
            x = z3.If(x < 0, z3.If(x + iv(n) < 0, z3.IntVal(0), x + iv(n)), x)
        if not T(I_, x <= iv(n)):
            x = z3.If(x <= iv(n), x, iv(n))
        return norm(x)
    lo, hi = clamp(s.lo, 0), clamp(s.hi, n)
    d = norm(iv(hi) - iv(lo))
    if isinstance(d, int):
        d = max(d, 0)
    elif not T(I_, d >= 0):
        d = norm(z3.If(d >= 0, d, 0))
    return lo, d


# ------------------------------------------------------------------------------------------------ arrays
def arr_getitem(I_, a, ixs, check=True):
    M = V()
    ixs = list(ixs)
    if len(ixs) == 1 and isinstance(ixs[0], M.Arr) and ixs[0].dt == 'bool' and a.ndim == ixs[0].ndim == 1:
        mask = ixs[0]
        dim_eq(I_, mask.shape[0], a.shape[0], 'boolean index')
        fm, fa = mask.snap(), a.snap()
        E = Enum(lambda j: fm(j))
        n = a.shape[0]
        I_.add(L.enum_facts(E, n))
        I_.enums.append((E, n))
        I_.deletions1.append((E, n))
        return M.Arr([E.cnt(n)], lambda j: fa(E.at(j)), dt=a.dt, tag={'kept': (E, n)})
    while len(ixs) < a.ndim:
        ixs.append(M.Slice(None, None, None))
    if len(ixs) > a.ndim:
        raise Unsupported('too many indices')
    fancy = [i for i, x in enumerate(ixs) if isinstance(x, (M.Arr, M.PyList, M.Seq)) and not (isinstance(x, M.Arr) and x.ndim == 0)
             or isinstance(x, tuple)]
    if not fancy:
        # a view
        dims, maps, invs = [], [], []
        for d, (x, n) in enumerate(zip(ixs, a.shape)):
            if isinstance(x, M.Slice):
                lo, ln = slice_bounds(I_, x, n)
                if isinstance(lo, str):
                    maps.append(lambda it, n=n: norm(iv(n) - 1 - iv(next(it))))
                    invs.append((lambda b, n=n: True, lambda b, n=n: norm(iv(n) - 1 - iv(b))))
                    dims.append(n)
                elif same(lo, 0):
                    maps.append(lambda it: next(it))
                    full = same(ln, n)
                    invs.append((lambda b, ln=ln, full=full: True if full else iv(b) < iv(ln), lambda b: b))
                    dims.append(ln)
                else:
                    maps.append(lambda it, lo=lo: norm(iv(lo) + iv(next(it))))
                    invs.append((lambda b, lo=lo, ln=ln: z3.And(iv(lo) <= iv(b), iv(b) < iv(lo) + iv(ln)), lambda b, lo=lo: norm(iv(b) - iv(lo))))
                    dims.append(ln)
            else:
                k = norm_index(I_, x, n, f'array axis {d}', check)
                maps.append(lambda it, k=k: k)
                invs.append((lambda b, k=k: norm(iv(b) == iv(k)), None))
        if not dims:
            return norm(a.get(*[m(iter(())) for m in maps]))

        def mp(*ix, maps=maps, a=a):
            it = iter(ix)
            return a.map(*[m(it) for m in maps])

        def inv(*b, invs=invs, a=a):
            c, aix = a.inv(*b)
            conds, out = [c], []
            for x, (cf, g) in zip(aix, invs):
                conds.append(cf(x))
                if g is not None:
                    out.append(g(x))
            return And(*[norm(q) if is_z(q) else q for q in conds]), tuple(out)
        return M.Arr(dims, store=a.store, map=mp, inv=inv, dt=a.dt)
    if len(fancy) > 1:
        raise Unsupported('several index arrays')
    # advanced indexing: a copy
    d = fancy[0]
    x = ixs[d]
    if isinstance(x, M.Arr) and x.dt == 'bool':
        fm = x.snap()
        dim_eq(I_, x.shape[0], a.shape[d], 'boolean index')
        E = Enum(lambda j: fm(j))
        I_.add(L.enum_facts(E, a.shape[d]))
        I_.enums.append((E, a.shape[d]))
        if a.ndim == 2 and d == 1:
            I_.deletions.append((E, a.shape[d]))
        idx = M.Seq(E.cnt(a.shape[d]), lambda j: E.at(j))
        sub_check = False
    else:
        idx = to_seq(I_, x)
        sub_check = True
    n = a.shape[d]
    cl = conc(idx.n)
    neg = False
    if sub_check and check:
        if cl is not None:
            for j in range(cl):
                norm_index(I_, idx.at(j), n, f'index list, axis {d}')
        else:
            g = I_.fresh('ix')
            e = iv(idx.at(g))
            goal = z3.Implies(z3.And(0 <= g, g < iv(idx.n)), z3.And(0 <= e, e < iv(n)))
            I_.prove(f'index list in bounds (axis {d})', goal)
            q = fresh_int('q')
            eq = iv(idx.at(q))
            I_.add(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < iv(idx.n)), z3.And(0 <= eq, eq < iv(n)))))
            I_.index_lists.append((idx, n))

    def pos(j):
        e = idx.at(j)
        if isinstance(e, int):
            return e if e >= 0 else norm(iv(n) + e)
        if cl is not None and not T(I_, iv(e) >= 0):
            return norm(z3.If(iv(e) < 0, iv(e) + iv(n), iv(e)))
        return e
    rest = list(ixs)
    rest[d] = M.Slice(None, None, None)
    base = arr_getitem(I_, a, rest, check)
    kept = [i for i in range(a.ndim) if isinstance(rest[i], M.Slice)]
    dd = kept.index(d)
    f = base.snap()
    shape = list(base.shape)
    shape[dd] = idx.n
    return M.Arr(shape, lambda *ix: f(*[pos(j) if k == dd else j for k, j in enumerate(ix)]), dt=a.dt)


def arr_assign_all(I_, view, value):
    """view[...] = value with broadcasting"""
    M = V()
    st = view.store
    if st.prot and not I_.assume_mode:
        I_.frame_violation(f'{st.prot} is written')
    I_.log_store(st)
    st.writes += 1
    if isinstance(value, (M.PyList, tuple, M.Seq)):
        value = np_array(I_, value)
    if isinstance(value, M.Arr) and value.ndim > 0:
        g = value.snap()
        off = view.ndim - value.ndim
        if off < 0:
            raise Unsupported('assignment of a higher-dimensional array')
        bc = []
        for k in range(value.ndim):
            if conc(value.shape[k]) == 1 and not conc(view.shape[off + k]) == 1:
                bc.append(True)
            else:
                dim_eq(I_, value.shape[k], view.shape[off + k], 'array assignment')
                bc.append(False)
        val = lambda *ix: g(*[0 if bc[k] else ix[off + k] for k in range(value.ndim)])
    else:
        if isinstance(value, M.Arr):
            value = value.get()
        if not V().scalar(value):
            raise Unsupported(f'array assignment of {type(value).__name__}')
        val = lambda *ix: value
    old = st.fn
    inv = view.inv
    boolish = view.dt == 'bool'

    def fn(*b):
        c, ix = inv(*b)
        if c is True:
            return val(*ix)
        return ite(c, val(*ix), old(*b))
    st.fn = fn


def np_array(I_, x, dt=None):
    M = V()
    if isinstance(x, M.Arr):
        f = x.snap()
        return M.Arr(x.shape, f, dt=x.dt)
    if V().scalar(x):
        return M.Arr([], lambda: x)
    sq = to_seq(I_, x)
    n = conc(sq.n)
    if n == 0:
        return M.Arr([0], lambda i: 0)
    if n is not None:
        items = [sq.at(i) for i in range(n)]
        if all(V().scalar(t) for t in items):
            isb = all(isinstance(t, bool) or (is_z(t) and z3.is_bool(t)) for t in items)
            return M.Arr([n], lambda i: items[conc(i)] if conc(i) is not None else pick(I_, items, i), dt='bool' if isb else 'int')
        subs = [np_array(I_, t) for t in items]
        for s in subs[1:]:
            for p, q in zip(s.shape, subs[0].shape):
                dim_eq(I_, p, q, 'np.array of rows')
        fs = [s.snap() for s in subs]
        return M.Arr([n, *subs[0].shape], lambda i, *ix: fs[conc(i)](*ix) if conc(i) is not None else pick(I_, [f(*ix) for f in fs], i))
    g = I_.fresh('gen')
    t = sq.at(g)
    if V().scalar(t):
        at = sq.at
        return M.Arr([sq.n], lambda i: at(i), dt='bool' if isinstance(t, bool) or (is_z(t) and z3.is_bool(t)) else 'int')
    s = np_array(I_, t)
    if any(is_z(d) and _contains_const(d, g) for d in s.shape):
        raise Unsupported('ragged array')
    at = sq.at
    return M.Arr([sq.n, *s.shape], lambda i, *ix: np_array(I_, at(i)).get(*ix))


def _contains_const(t, c):
    from core import _contains
    return _contains(t, c, {})


def as_arr(I_, x):
    M = V()
    if isinstance(x, M.Arr):
        return x
    return np_array(I_, x)


def broadcast(I_, a, b, what):
    """-> shape, index functions"""
    nd = max(a.ndim, b.ndim)
    sa = [None] * (nd - a.ndim) + list(a.shape)
    sb = [None] * (nd - b.ndim) + list(b.shape)
    shape, ba, bb = [], [], []
    for p, q in zip(sa, sb):
        if p is None:
            shape.append(q); ba.append(None); bb.append(False)
        elif q is None:
            shape.append(p); ba.append(False); bb.append(None)
        elif conc(p) == 1 and conc(q) != 1:
            shape.append(q); ba.append(True); bb.append(False)
        elif conc(q) == 1 and conc(p) != 1:
            shape.append(p); ba.append(False); bb.append(True)
        else:
            dim_eq(I_, p, q, what)
            shape.append(p); ba.append(False); bb.append(False)
    fa = lambda ix: [0 if t else i for i, t in zip(ix, ba) if t is not None]
    fb = lambda ix: [0 if t else i for i, t in zip(ix, bb) if t is not None]
    return shape, fa, fb


POW = z3.Function('POW', I, I, I)


def scalar_op(I_, op, a, b, quiet=False):
    prove = (lambda *x: None) if quiet else I_.prove
    ca, cb = (a if isinstance(a, (int, bool)) else None), (b if isinstance(b, (int, bool)) else None)
    isreal = any(is_z(t) and z3.is_real(t) for t in (a, b))

    def num(t):
        t = iv(t)
        if isreal and z3.is_int(t):
            return z3.ToReal(t)
        return t
    if op == 'Add':
        return ca + cb if ca is not None and cb is not None else norm(num(a) + num(b))
    if op == 'Sub':
        return ca - cb if ca is not None and cb is not None else norm(num(a) - num(b))
    if op == 'Mult':
        return ca * cb if ca is not None and cb is not None else norm(num(a) * num(b))
    if op == 'Div':
        x, y = iv(a), iv(b)
        x = z3.ToReal(x) if z3.is_int(x) else x
        y = z3.ToReal(y) if z3.is_int(y) else y
        prove('division by nonzero', y != 0)
        return x / y
    if op == 'Pow':
        if ca is not None and cb is not None and cb >= 0:
            return ca ** cb
        if cb is not None and 0 <= cb <= 4:
            r = z3.RealVal(1) if isreal else z3.IntVal(1)
            for _ in range(cb):
                r = r * num(a)
            return norm(r)
        if isreal:
            raise Unsupported('real power')
        if ca == 2:
            return POW2(iv(b))
        return POW(iv(a), iv(b))
    if isreal:
        if op == 'FloorDiv':
            raise Unsupported('float //')
        raise Unsupported(f'{op} on floats')
    if op in ('FloorDiv', 'Mod'):
        if ca is not None and cb is not None and cb != 0:
            return ca // cb if op == 'FloorDiv' else ca % cb
        if cb is not None and cb > 0:
            return norm(iv(a) / cb) if op == 'FloorDiv' else norm(iv(a) % cb)
        d = iv(b)
        prove('division by nonzero', d != 0)
        q = FDIV(iv(a), d)
        r = FMOD(iv(a), d)
        if not quiet:
            I_.add(iv(a) == d * q + r, z3.Implies(d > 0, z3.And(0 <= r, r < d)), z3.Implies(d < 0, z3.And(d < r, r <= 0)))
        return q if op == 'FloorDiv' else r
    if op == 'LShift':
        if ca is not None and cb is not None:
            return ca << cb
        prove('shift by a non-negative amount', iv(b) >= 0)
        if cb is not None:
            return norm(iv(a) * (1 << cb))
        return norm(iv(a) * POW2(iv(b)))
    if op == 'RShift':
        if ca is not None and cb is not None:
            return ca >> cb
        if cb is not None:
            return norm(iv(a) / (1 << cb))
        raise Unsupported('>> by a symbolic amount')
    bools = all(isinstance(t, bool) or (is_z(t) and z3.is_bool(t)) for t in (a, b))
    if op == 'BitAnd':
        if bools:
            return norm(And(a, b))
        if ca is not None and cb is not None:
            return ca & cb
        for x, c in ((a, cb), (b, ca)):
            if c == 1:
                return norm(iv(x) % 2)
        return BAND(iv(a), iv(b))
    if op == 'BitOr':
        if bools:
            return norm(Or(a, b))
        if ca is not None and cb is not None:
            return ca | cb
        x, y = iv(a), iv(b)
        return x + y - BAND(x, y)
    if op == 'BitXor':
        if bools:
            return norm(zb(a) != zb(b))
        if ca is not None and cb is not None:
            return ca ^ cb
        x, y = iv(a), iv(b)
        return x + y - 2 * BAND(x, y)
    raise Unsupported(f'operator {op}')


FDIV = z3.Function('FDIV', I, I, I)
FMOD = z3.Function('FMOD', I, I, I)


def matmul(I_, a, b):
    M = V()
    a, b = as_arr(I_, a), as_arr(I_, b)
    fa, fb = a.snap(), b.snap()
    if a.ndim == 2 and b.ndim == 1:
        dim_eq(I_, a.shape[1], b.shape[0], '@')
        n = a.shape[1]
        return M.Arr([a.shape[0]], lambda r: SUM(lambda j: iv(fa(r, j)) * iv(fb(j)), n), dt='obj' if 'obj' in (a.dt, b.dt) else 'int')
    if a.ndim == 1 and b.ndim == 1:
        dim_eq(I_, a.shape[0], b.shape[0], '@')
        return SUM(lambda j: iv(fa(j)) * iv(fb(j)), a.shape[0])
    if a.ndim == 1 and b.ndim == 2:
        dim_eq(I_, a.shape[0], b.shape[0], '@')
        return M.Arr([b.shape[1]], lambda c: SUM(lambda j: iv(fa(j)) * iv(fb(j, c)), a.shape[0]))
    if a.ndim == 2 and b.ndim == 2:
        dim_eq(I_, a.shape[1], b.shape[0], '@')
        return M.Arr([a.shape[0], b.shape[1]], lambda r, c: SUM(lambda j: iv(fa(r, j)) * iv(fb(j, c)), a.shape[1]))
    raise Unsupported('@')


def concat_seqs(I_, a, b):
    M = V()
    na = a.n
    if conc(na) == 0:
        return b
    if conc(b.n) == 0:
        return a
    n = norm(iv(na) + iv(b.n))

    def at(i):
        ci, cna = conc(i), conc(na)
        if ci is not None and cna is not None:
            return a.at(ci) if ci < cna else b.at(ci - cna)
        if conc(b.n) == 1 and conc(na) is None:
            return val_ite(I_, iv(i) < iv(na), a.at(i), b.at(0))
        return val_ite(I_, iv(i) < iv(na), a.at(i), b.at(norm(iv(i) - iv(na))))
    return M.Seq(n, at, {'concat': (a, b)})


def binop(I_, op, a, b):
    M = V()
    if op == 'MatMult':
        return matmul(I_, a, b)
    if isinstance(a, M.Arr) or isinstance(b, M.Arr):
        a, b = as_arr(I_, a), as_arr(I_, b)
        shape, fa, fb = broadcast(I_, a, b, op)
        ga, gb = a.snap(), b.snap()
        dt = 'bool' if a.dt == b.dt == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor') else ('obj' if 'obj' in (a.dt, b.dt) else 'int')
        if op in ('FloorDiv', 'Mod', 'Div') and conc(gb(*fb([z3.Int('_z')] * len(shape)))) is None:
            raise Unsupported('array division')
        if not shape:
            return scalar_op(I_, op, ga(), gb())
        r = M.Arr(shape, lambda *ix: scalar_op(I_, op, ga(*fa(ix)), gb(*fb(ix)), quiet=True), dt=dt)
        if op in ('LShift', 'Pow') and dt != 'obj' and shape:
            z = gb(*fb([z3.Int('_z')] * len(shape)))
            t = r.get(*[z3.Int('_z')] * len(shape))
            if conc(z) is None and not (is_z(t) and z3.is_real(t)):
                I_.prove('the numbers fit the machine integers of the array', FA(lambda *ix: Implies(And(*[rng(i, d) for i, d in zip(ix, shape)]),
                                                                     And(-2 ** 63 <= iv(r.get(*ix)), iv(r.get(*ix)) < 2 ** 63)), len(shape)))
        return r
    if V().scalar(a) and V().scalar(b):
        return scalar_op(I_, op, a, b)
    if op == 'Add':
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, M.PyList) and isinstance(b, M.PyList):
            if a.is_conc() and b.is_conc():
                return M.PyList(a.items + b.items)
            return M.PyList(seq=concat_seqs(I_, to_seq(I_, a), to_seq(I_, b)))
        if isinstance(a, (tuple, M.Seq)) and isinstance(b, (tuple, M.Seq)):
            return concat_seqs(I_, to_seq(I_, a), to_seq(I_, b))
        if hasattr(a, 'add') or hasattr(b, 'radd'):
            return a.add(I_, b) if hasattr(a, 'add') else b.radd(I_, a)
        if isinstance(a, M.Opaque) or isinstance(b, M.Opaque):
            return M.Opaque('concatenation')
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, M.PyList) and x.is_conc() and V().scalar(y):
                c = conc(y)
                if c is not None:
                    return M.PyList(x.items * c)
                if len(x.items) == 1:
                    v = x.items[0]
                    return M.PyList(seq=M.Seq(range_len(I_, 0, y), lambda i: v))
            if isinstance(x, str) and conc(y) is not None and not V().scalar(x):
                return x * conc(y)
            if isinstance(x, str) and V().scalar(y):
                return M.Opaque('text')
    if op == 'Mod' and isinstance(a, (str,)) or isinstance(a, M.Opaque):
        return M.Opaque('text')
    if op == 'Sub' and isinstance(a, M.PySet):
        raise Unsupported('set difference')
    raise Unsupported(f'{op} of {type(a).__name__} and {type(b).__name__}')


CMP = {'Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'}


def scalar_cmp(op, a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    isb = lambda t: isinstance(t, bool) or (is_z(t) and z3.is_bool(t))
    if op in ('Eq', 'NotEq') and isb(a) and isb(b):
        r = zb(a) == zb(b)
        return norm(r if op == 'Eq' else z3.Not(r))
    x, y = iv(a), iv(b)
    if z3.is_real(x) != z3.is_real(y):
        x = z3.ToReal(x) if z3.is_int(x) else x
        y = z3.ToReal(y) if z3.is_int(y) else y
    r = {'Eq': lambda: x == y, 'NotEq': lambda: x != y, 'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y,
         'GtE': lambda: x >= y}[op]()
    return norm(r)


def val_eq(I_, a, b):
    """python == on non-array values, as a term"""
    M = V()
    if a is None or b is None:
        return a is b
    if V().scalar(a) and V().scalar(b):
        return scalar_cmp('Eq', a, b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if hasattr(a, 'eq_val'):
        return a.eq_val(I_, b)
    if hasattr(b, 'eq_val'):
        return b.eq_val(I_, a)
    if isinstance(a, M.NTVal):
        a = tuple(a.vals)
    if isinstance(b, M.NTVal):
        b = tuple(b.vals)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[val_eq(I_, x, y) for x, y in zip(a, b)])
    if isinstance(a, (M.PyList, M.Seq)) and isinstance(b, (M.PyList, M.Seq)):
        x, y = to_seq(I_, a), to_seq(I_, b)
        if conc(x.n) is not None and conc(y.n) is not None:
            if conc(x.n) != conc(y.n):
                return False
            return And(*[val_eq(I_, x.at(i), y.at(i)) for i in range(conc(x.n))])
        return And(iv(x.n) == iv(y.n), FAr(x.n, lambda i: val_eq(I_, x.at(i), y.at(i))))
    if isinstance(a, M.Obj):
        f = a.cls.find('__eq__')
        if f is not None:
            return I_.truth(I_.call(f, [a, b], {}))
        return a is b
    if V().scalar(a) != V().scalar(b):
        return False
    if isinstance(a, (M.PyList, tuple)) and isinstance(b, (M.PyList, tuple)):
        return False
    if isinstance(a, str) or isinstance(b, str):
        return False
    raise Unsupported(f'== on {type(a).__name__}, {type(b).__name__}')


def compare(I_, op, a, b):
    M = V()
    if op in ('Is', 'IsNot'):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            r = a is b
        elif isinstance(a, (M.Obj, M.PyList, M.Arr)):
            r = a is b
        else:
            raise Unsupported('is')
        return r if op == 'Is' else not r
    if op in ('In', 'NotIn'):
        r = contains(I_, b, a)
        return r if op == 'In' else Not(r)
    if isinstance(a, M.Arr) or isinstance(b, M.Arr):
        a, b = as_arr(I_, a), as_arr(I_, b)
        shape, fa, fb = broadcast(I_, a, b, 'comparison')
        ga, gb = a.snap(), b.snap()
        if not shape:
            return scalar_cmp(op, ga(), gb())
        return M.Arr(shape, lambda *ix: scalar_cmp(op, ga(*fa(ix)), gb(*fb(ix))), dt='bool')
    if op in ('Eq', 'NotEq'):
        r = val_eq(I_, a, b)
        return r if op == 'Eq' else Not(r)
    if V().scalar(a) and V().scalar(b):
        return scalar_cmp(op, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return lex_cmp(I_, op, a, b)
    raise Unsupported(f'{op} on {type(a).__name__}')


def lex_cmp(I_, op, a, b):
    n = min(len(a), len(b))
    strict = 'Lt' if op in ('Lt', 'LtE') else 'Gt'
    if n == 0:
        la, lb = len(a), len(b)
        return {'Lt': la < lb, 'LtE': la <= lb, 'Gt': la > lb, 'GtE': la >= lb}[op]
    return Or(scalar_cmp(strict, a[0], b[0]), And(scalar_cmp('Eq', a[0], b[0]), lex_cmp(I_, op, a[1:], b[1:])))


def contains(I_, c, x):
    M = V()
    if isinstance(c, M.PyDict):
        if c.sym is not None:
            raise Unsupported('in symbolic dict')
        if conc(x) is None and is_z(x):
            return Or(*[val_eq(I_, x, k) for k in c.items])
        return any(norm(val_eq(I_, x, k)) is True for k in c.items)
    if isinstance(c, M.RangeV) and c.step == 1:
        return And(iv(c.lo) <= iv(x), iv(x) < iv(c.hi))
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    sq = to_seq(I_, c)
    n = conc(sq.n)
    if n is not None:
        return Or(*[val_eq(I_, x, sq.at(i)) for i in range(n)])
    return EXr(sq.n, lambda i: val_eq(I_, sq.at(i), x))


def set_seq(I_, s):
    """the elements of a set in some order, each value once"""
    M = V()
    if getattr(s, 'once', None) is None:
        sq = s.seq
        c = conc(sq.n)
        if c is not None and c <= 1:
            s.once = sq
            return sq
        n, sel, w = I_.fresh('ns'), I_.fresh_fn('ssel', I, I), I_.fresh_fn('sselw', I, I)
        j, j2, t = [fresh_int('q') for _ in range(3)]
        N = iv(sq.n)
        eq = lambda a, b: zb(val_eq(I_, sq.at(a), sq.at(b)))
        I_.add(n >= 0, n <= N, z3.Implies(N > 0, n > 0))
        I_.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= sel(j), sel(j) < N)), patterns=[sel(j)]))
        I_.add(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < n), z3.Not(eq(sel(j), sel(j2)))),
                         patterns=[z3.MultiPattern(sel(j), sel(j2))]))
        I_.add(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N), z3.And(0 <= w(t), w(t) < n, eq(sel(w(t)), t))), patterns=[w(t)]))
        s.once = M.Seq(n, lambda j: sq.at(sel(iv(j))), {'set': (sel, w, sq)})
    return s.once


def member_pred(I_, sq, n=None):
    """(inset(j), witness(j)) for a sequence of integers"""
    if getattr(sq, 'member', None) is None or sq.member[0] is not I_.assume:
        sq.member = (I_.assume, _member_pred(I_, sq, n))
    return sq.member[1]


def _member_pred(I_, sq, n=None):
    M = V()
    c = conc(sq.n)
    if c is not None and c <= 16:
        items = [sq.at(i) for i in range(c)]

        def inset(j):
            return Or(*[iv(j) == iv(t) for t in items]) if items else False

        def w(j):
            r = 0
            for k, t in enumerate(items):
                r = ite(iv(j) == iv(t), k, r)
            return r
        return inset, w
    E = sq.tag.get('enum') or (sq.tag.get('arr') is not None and sq.tag['arr'].tag.get('enum')) or None
    if E:
        E, N = E
        I_.add(L.enum_facts(E, N))
        return (lambda j: And(0 <= iv(j), iv(j) < iv(N), E.m(iv(j)))), (lambda j: E.cnt(iv(j)))
    ins = I_.fresh_fn('ins', I, BOOL)
    wf = I_.fresh_fn('inw', I, I)
    q = fresh_int('q')
    e = z3.simplify(iv(sq.at(q)))
    pats, stack = [], [e]
    while stack:
        x = stack.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(y.eq(q) for y in x.children()) and not any(x.eq(y) for y in pats):
            pats.append(x)
        stack += x.children()
    if not e.eq(q) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(e.eq(y) for y in pats):
        pats.append(e)
    I_.add(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < iv(sq.n)), ins(e)), patterns=pats))
    j = fresh_int('q')
    I_.add(z3.ForAll([j], z3.Implies(ins(j), z3.And(0 <= wf(j), wf(j) < iv(sq.n), iv(sq.at(wf(j))) == j)), patterns=[ins(j)]))
    I_.members.append((sq, ins, wf))
    return (lambda j: ins(iv(j))), (lambda j: wf(iv(j)))


# ------------------------------------------------------------------------------------------------ item access
class Ix:
    """np.ix_(rows, columns)"""

    def __init__(self, ps):
        if len(ps) != 2:
            raise Unsupported('np.ix_')
        self.ps = ps


def getitem(I_, o, ix):
    M = V()
    if isinstance(o, M.Arr):
        if isinstance(ix, Ix):
            full = M.Slice(None, None, None)
            return arr_getitem(I_, arr_getitem(I_, o, (ix.ps[0], full)), (full, ix.ps[1]))
        return arr_getitem(I_, o, ix if isinstance(ix, tuple) and not _all_scalar_tuple(o, ix) else ((ix,) if not isinstance(ix, tuple) else ix))
    if isinstance(o, str):
        if isinstance(ix, M.Slice):
            return o[conc(ix.lo) if ix.lo is not None else None: conc(ix.hi) if ix.hi is not None else None]
        return o[conc(ix)]
    if isinstance(o, M.NTVal):
        o = tuple(o.vals)
    if isinstance(o, tuple):
        if isinstance(ix, M.Slice):
            f = lambda x: None if x is None else conc(x)
            return o[f(ix.lo):f(ix.hi):f(ix.step)]
        c = conc(index_term(I_, ix))
        if c is None:
            I_.prove('tuple index in bounds', z3.And(iv(ix) >= 0, iv(ix) < len(o)))
            return pick(I_, list(o), ix)
        if not -len(o) <= c < len(o):
            I_.prove('tuple index in bounds', False)
            raise M.PathEnd()
        return o[c]
    if isinstance(o, M.Seq) and o.it is not None:
        raise Unsupported('index into an iterator')
    if isinstance(o, M.PyList) or isinstance(o, M.Seq):
        sq = to_seq(I_, o)
        if isinstance(ix, M.Slice):
            lo, d = slice_bounds(I_, ix, sq.n)
            if isinstance(lo, str):
                r = M.Seq(d, lambda i: sq.at(norm(iv(d) - 1 - iv(i))))
            else:
                r = M.Seq(d, lambda i: sq.at(norm(iv(lo) + iv(i)) if not (conc(lo) is not None and conc(i) is not None) else conc(lo) + conc(i)))
            if conc(d) is not None:
                return M.PyList([r.at(i) for i in range(conc(d))])
            return M.PyList(seq=r)
        if isinstance(o, M.PyList) and o.is_conc() and conc(ix) is not None and not -len(o.items) <= conc(ix) < len(o.items):
            if I_.catching('IndexError'):
                raise M.PyRaise(I_.make_exc('IndexError'))
        k = norm_index(I_, ix, sq.n, 'list index')
        return sq.at(k)
    if isinstance(o, M.PyDict):
        return dict_get(I_, o, ix)
    if isinstance(o, M.NS) and o.name == 'numpy.r_':
        return np_concat1(I_, ix if isinstance(ix, tuple) else (ix,))
    if hasattr(o, 'getitem'):
        return o.getitem(I_, ix)
    if isinstance(o, M.Obj):
        f = o.cls.find('__getitem__')
        if f is not None:
            return I_.call(f, [o, ix], {})
    raise Unsupported(f'indexing of {type(o).__name__}')


def _all_scalar_tuple(o, ix):
    return False


def setitem(I_, o, ix, v):
    M = V()
    if isinstance(o, M.Arr):
        ixs = ix if isinstance(ix, tuple) else (ix,)
        if any(isinstance(x, (M.Arr, M.PyList, M.Seq, tuple)) and not (isinstance(x, M.Arr) and x.ndim == 0) for x in ixs):
            return scatter(I_, o, ixs, v)
        ixs = list(ixs) + [M.Slice(None, None, None)] * (o.ndim - len(ixs))
        view = arr_view(I_, o, ixs)
        return arr_assign_all(I_, view, v)
    if isinstance(o, M.PyList):
        if o.prot and not I_.assume_mode:
            I_.frame_violation(f'{o.prot} is written')
        I_.log_list(o)
        if o.is_conc() and conc(ix) is not None:
            o.items = list(o.items)
            o.items[conc(ix)] = v
            return
        if not isinstance(ix, M.Slice):
            sq = to_seq(I_, o)
            k = norm_index(I_, ix, sq.n, 'list index')
            o.seq = M.Seq(sq.n, lambda i: val_ite(I_, iv(i) == iv(k), v, sq.at(i)))
            o.items = None
            return
        if ix.lo is None and ix.hi is None and ix.step is None:
            sq = to_seq(I_, v)
            list_replace(I_, o, sq)
            return
    if isinstance(o, M.PyDict):
        if o.sym is not None:
            return o.sym.setitem(I_, ix, v)
        k = conc(ix) if is_z(ix) else ix
        if is_z(ix) and k is None:
            raise Unsupported('dict with symbolic keys')
        I_.log_dict(o)
        o.items[k] = v
        return
    if hasattr(o, 'setitem'):
        return o.setitem(I_, ix, v)
    raise Unsupported(f'item assignment on {type(o).__name__}')


def arr_view(I_, a, ixs):
    """like arr_getitem, but a full scalar index gives a 0-d view"""
    M = V()
    if all(not isinstance(x, M.Slice) for x in ixs):
        ks = [norm_index(I_, x, n, f'array axis {d}') for d, (x, n) in enumerate(zip(ixs, a.shape))]

        def inv(*b):
            c, aix = a.inv(*b)
            return And(c, *[norm(iv(x) == iv(k)) for x, k in zip(aix, ks)]), ()
        return M.Arr([], store=a.store, map=lambda: a.map(*ks), inv=inv, dt=a.dt)
    return arr_getitem(I_, a, ixs)


def scatter(I_, a, ixs, v):
    M = V()
    ixs = list(ixs) + [M.Slice(None, None, None)] * (a.ndim - len(ixs))
    if a.store.prot and not I_.assume_mode:
        I_.frame_violation(f'{a.store.prot} is written')
    I_.log_store(a.store)
    a.store.writes += 1
    fancy = [d for d, x in enumerate(ixs) if not isinstance(x, M.Slice) and not V().scalar(x)]
    if len(fancy) != 1 or any(isinstance(x, M.Slice) and (x.lo, x.hi, x.step) != (None, None, None) for x in ixs) \
            or len(fancy) + sum(isinstance(x, M.Slice) for x in ixs) != a.ndim:
        raise Unsupported('scatter assignment')
    d = fancy[0]
    x = ixs[d]
    old, ainv = a.store.fn, a.inv
    if isinstance(x, M.Arr) and x.dt == 'bool':
        m = x.snap()
        dim_eq(I_, x.shape[0], a.shape[d], 'boolean index')
        if not V().scalar(v):
            raise Unsupported('masked assignment of an array')

        def fn(*b):
            c, ix = ainv(*b)
            return ite(And(c, m(ix[d])), v, old(*b))
        a.store.fn = fn
        return
    sq = to_seq(I_, x)
    g = I_.fresh('ix')
    e = iv(sq.at(g))
    I_.prove('index list in bounds (assignment)', z3.Implies(z3.And(0 <= g, g < iv(sq.n)), z3.And(0 <= e, e < iv(a.shape[d]))))
    inset, w = member_pred(I_, sq)
    if V().scalar(v):
        val = lambda k, ix: v
    else:
        va = as_arr(I_, v).snap()
        if as_arr(I_, v).ndim != a.ndim:
            raise Unsupported('scatter of a lower-dimensional array')
        # the last write wins; only modelled for distinct indices
        p, q = I_.fresh('p'), I_.fresh('q')
        I_.prove('index list without repetition', z3.Implies(z3.And(0 <= p, p < q, q < iv(sq.n)), iv(sq.at(p)) != iv(sq.at(q))))
        val = lambda k, ix: va(*[k if t == d else y for t, y in enumerate(ix)])

    def fn(*b):
        c, ix = ainv(*b)
        return ite(And(c, inset(ix[d])), val(w(ix[d]), ix), old(*b))
    a.store.fn = fn


# ------------------------------------------------------------------------------------------------ dicts / groupings
class GroupDict:
    """dict built by  d[key(t)].append(val(t))  for t = 0..n-1  on an empty dict of lists (first-occurrence order)

    number of groups ng; group of element t: gid(t), position pos(t); member(g,p): element index; size(g)"""

    def __init__(self, I_, n, key, val):
        self.n, self.key, self.val = n, key, val
        self.ng = I_.fresh('ng')
        self.gid = I_.fresh_fn('gid', I, I)
        self.pos = I_.fresh_fn('pos', I, I)
        self.mem = I_.fresh_fn('mem', I, I, I)
        self.size = I_.fresh_fn('gsz', I, I)
        n, ng, gid, pos, mem, size = iv(n), self.ng, self.gid, self.pos, self.mem, self.size
        t, g, p, t2, g2, p2 = [fresh_int('q') for _ in range(6)]
        inr = z3.And(0 <= t, t < n)
        gin = z3.And(0 <= g, g < ng, 0 <= p, p < size(g))
        k = lambda t: iv(key(t))
        I_.add(ng >= 0, ng <= n, z3.Implies(n > 0, ng > 0))
        I_.add(z3.ForAll([t], z3.Implies(inr, z3.And(0 <= gid(t), gid(t) < ng, 0 <= pos(t), pos(t) < size(gid(t)), mem(gid(t), pos(t)) == t)),
                         patterns=[gid(t)]))
        I_.add(z3.ForAll([g, p], z3.Implies(gin, z3.And(0 <= mem(g, p), mem(g, p) < n, gid(mem(g, p)) == g, pos(mem(g, p)) == p,
                                                        k(mem(g, p)) == k(mem(g, 0)))), patterns=[mem(g, p)]))
        I_.add(z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < ng), size(g) >= 1), patterns=[size(g)]))
        I_.add(z3.ForAll([t, t2], z3.Implies(z3.And(0 <= t, t < n, 0 <= t2, t2 < n, k(t) == k(t2)), gid(t) == gid(t2)),
                         patterns=[z3.MultiPattern(gid(t), gid(t2))]))
        I_.add(z3.ForAll([t, t2], z3.Implies(z3.And(0 <= t, t < t2, t2 < n, gid(t) == gid(t2)), pos(t) < pos(t2)),
                         patterns=[z3.MultiPattern(gid(t), gid(t2))]))
        I_.add(z3.ForAll([g, g2], z3.Implies(z3.And(0 <= g, g < g2, g2 < ng), mem(g, 0) < mem(g2, 0)),
                         patterns=[z3.MultiPattern(mem(g, 0), mem(g2, 0))]))
        I_.add(z3.ForAll([g, p, p2], z3.Implies(z3.And(0 <= g, g < ng, 0 <= p, p < p2, p2 < size(g)), mem(g, p) < mem(g, p2)),
                         patterns=[z3.MultiPattern(mem(g, p), mem(g, p2))]))
        # every element of the list is seen by the solver through its group
        I_.groupings.append(self)

    def items_seq(self):
        M = V()
        return M.Seq(self.ng, lambda g: (self.key(self.mem(iv(g), 0)), self.list_of(g)))

    def list_of(self, g):
        M = V()
        return M.PyList(seq=M.Seq(self.size(iv(g)), lambda p: self.val(self.mem(iv(g), iv(p)))))

    def keys_seq(self):
        M = V()
        return M.Seq(self.ng, lambda g: self.key(self.mem(iv(g), 0)))

    def values_seq(self):
        M = V()
        return M.Seq(self.ng, lambda g: self.list_of(g))


class MapDict:
    """dict comprehension {k(t): v(t) for t with cond}: later entries win; keys distinct"""

    def __init__(self, I_, sq):
        """sq: Seq of (key, value) pairs in insertion order"""
        self.n = I_.fresh('nd')
        self.sel = I_.fresh_fn('sel', I, I)          # which pair the j-th entry comes from (its value)
        n, sel = self.n, self.sel
        j, j2, t = [fresh_int('q') for _ in range(3)]
        key = lambda t: iv(sq.at(t)[0])
        N = iv(sq.n)
        I_.add(n >= 0, n <= N)
        I_.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= sel(j), sel(j) < N)), patterns=[sel(j)]))
        I_.add(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < n), key(sel(j)) != key(sel(j2))),
                         patterns=[z3.MultiPattern(sel(j), sel(j2))]))
        w = I_.fresh_fn('selw', I, I)
        I_.add(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N), z3.And(0 <= w(t), w(t) < n, key(sel(w(t))) == key(t), sel(w(t)) >= t)),
                         patterns=[w(t)]))
        self.sq = sq
        self.w = w

    def items_seq(self):
        M = V()
        return M.Seq(self.n, lambda j: self.sq.at(self.sel(iv(j))))

    def keys_seq(self):
        return V().Seq(self.n, lambda j: self.sq.at(self.sel(iv(j)))[0])

    def values_seq(self):
        return V().Seq(self.n, lambda j: self.sq.at(self.sel(iv(j)))[1])


def dict_from_pairs(I_, r):
    M = V()
    if isinstance(r, list):
        d = M.PyDict()
        for k, v in r:
            if is_z(k) and conc(k) is None:
                raise Unsupported('dict with symbolic keys')
            d.items[conc(k) if is_z(k) else k] = v
        return d
    d = M.PyDict()
    d.sym = MapDict(I_, r)
    return d


def dict_get(I_, o, k):
    M = V()
    if o.sym is not None:
        raise Unsupported('symbolic dict lookup')
    kk = conc(k) if is_z(k) else k
    if is_z(k) and kk is None:
        if o.default is not None and not o.items:
            return SymSlot(o, k)
        raise Unsupported('dict lookup with a symbolic key')
    if kk in o.items:
        return o.items[kk]
    if o.default is not None:
        I_.log_dict(o)
        o.items[kk] = I_.call(o.default, [], {})
        return o.items[kk]
    raise M.PyRaise(I_.make_exc('KeyError'))


class SymSlot:
    """d[key] of an empty defaultdict with a symbolic key (only .append is modelled, inside a summarised loop)"""

    def __init__(self, d, key):
        self.d, self.key = d, key


def sym_comp(I_, e, g, sq, env, m):
    M = V()
    if g.ifs:
        # filter: evaluate the condition on a generic element
        def cond(v):
            ne = M.Env(env)
            I_.assign(g.target, v, ne, m)
            cs = [I_.truth(I_.ev(c, ne, m)) for c in g.ifs]
            return And(*cs) if len(cs) > 1 else cs[0]
        cs = map_seq(I_, sq, cond)
        E = Enum(lambda i: cs.at(i))
        n = sq.n
        I_.add(L.enum_facts(E, n))
        sub = M.Seq(E.cnt(n), lambda j: sq.at(E.at(j)), {'filtered': (E, n, sq)})
    else:
        sub = sq

    def elt(v):
        ne = M.Env(env)
        I_.assign(g.target, v, ne, m)
        return I_.comp_elt(e, ne, m)
    r = map_seq(I_, sub, elt)
    if g.ifs:
        same_elt = isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id or \
            isinstance(g.target, ast.Tuple) and ast.dump(e.elt).replace('Load()', '') == ast.dump(g.target).replace('Store()', '')
        r.tag['filtered'] = sub.tag['filtered'][:2] + (sq if same_elt else None,)
        I_.filtered.append(r)
    return r


# ------------------------------------------------------------------------------------------------ lists
def list_replace(I_, l, sq):
    if l.prot and not I_.assume_mode:
        I_.frame_violation(f'{l.prot} is changed')
    I_.log_list(l)
    c = conc(sq.n)
    if c is not None and c <= 64:
        l.items, l.seq = [sq.at(i) for i in range(c)], None
    else:
        l.items, l.seq = None, sq


def list_append(I_, l, v):
    M = V()
    if isinstance(l, SymSlot):
        if I_.rec is None:
            raise Unsupported('append to a dict entry with a symbolic key')
        I_.rec.append(('slot', l.d, l.key, v))
        return
    if l.prot and not I_.assume_mode:
        I_.frame_violation(f'{l.prot} is changed')
    if I_.rec is not None and id(l) in I_.rec_watch:
        I_.rec.append(('append', l, v))
        return
    I_.log_list(l)
    if l.is_conc():
        l.items = l.items + [v]
    else:
        l.seq = concat_seqs(I_, l.seq, to_seq(I_, (v,)))


def list_extend(I_, l, v):
    M = V()
    sq = to_seq(I_, v)
    if l.prot and not I_.assume_mode:
        I_.frame_violation(f'{l.prot} is changed')
    if I_.rec is not None and id(l) in I_.rec_watch:
        I_.rec.append(('extend', l, sq))
        return
    I_.log_list(l)
    if l.is_conc() and conc(sq.n) is not None and conc(sq.n) <= 64:
        l.items = l.items + [sq.at(i) for i in range(conc(sq.n))]
        return
    cur = to_seq(I_, l)
    r = concat_seqs(I_, cur, sq)
    l.items, l.seq = None, r


def permuted(I_, sq):
    """a rearrangement of sq"""
    M = V()
    p, q = I_.fresh_fn('perm', I, I), I_.fresh_fn('pinv', I, I)
    n = iv(sq.n)
    i = fresh_int('q')
    I_.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n, q(p(i)) == i)), patterns=[p(i)]))
    I_.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)), patterns=[q(i)]))
    r = M.Seq(sq.n, lambda i: sq.at(p(iv(i))), {'perm': (p, q, sq)})
    return r


def removed(I_, sq, k):
    """sq without its element k, in some order"""
    M = V()
    s, t = I_.fresh_fn('rem', I, I), I_.fresh_fn('remi', I, I)
    n = iv(sq.n)
    i = fresh_int('q')
    I_.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n - 1), z3.And(0 <= s(i), s(i) < n, s(i) != k, t(s(i)) == i)), patterns=[s(i)]))
    I_.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, i != k), z3.And(0 <= t(i), t(i) < n - 1, s(t(i)) == i)), patterns=[t(i)]))
    return M.Seq(norm(n - 1), lambda i: sq.at(s(iv(i))), {'removed': (sq, k)})


def flatten(I_, sq):
    """concatenation of a sequence of sequences"""
    M = V()
    c = conc(sq.n)
    if c is not None and c <= 32:
        r = M.Seq(0, lambda i: None)
        for i in range(c):
            r = concat_seqs(I_, r, to_seq(I_, sq.at(i)))
        return r
    ln = lambda g: to_seq(I_, sq.at(g)).n
    N = SUM(lambda g: iv(ln(g)), sq.n)
    if not (z3.is_const(N) or conc(N) is not None) and I_.generic == 0:
        N2 = I_.fresh('flen')
        I_.add(N2 == N)
        N = N2
    seg, off, loc = I_.fresh_fn('seg', I, I), I_.fresh_fn('off', I, I), I_.fresh_fn('fpos', I, I, I)
    t, g, p = fresh_int('q'), fresh_int('q'), fresh_int('q')
    n = iv(sq.n)
    I_.flats.append((seg, off, loc, ln, n, N))
    I_.add(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N), z3.And(0 <= seg(t), seg(t) < n, 0 <= off(t), off(t) < iv(ln(seg(t))),
                                                                  loc(seg(t), off(t)) == t)), patterns=[seg(t)]))
    I_.add(z3.ForAll([g, p], z3.Implies(z3.And(0 <= g, g < n, 0 <= p, p < iv(ln(g))), z3.And(0 <= loc(g, p), loc(g, p) < N,
                                                                                           seg(loc(g, p)) == g, off(loc(g, p)) == p)),
                     patterns=[loc(g, p)]))
    I_.add(z3.ForAll([g, p], z3.Implies(z3.And(0 <= g, g < n, 0 <= p, p < iv(ln(g))),
                                        loc(g, p) == SUM(lambda h: iv(ln(h)), g) + p), patterns=[loc(g, p)]))
    return M.Seq(N, lambda t: to_seq(I_, sq.at(seg(iv(t)))).at(off(iv(t))), {'flat': (sq, seg, off, loc, ln)})


# ------------------------------------------------------------------------------------------------ numpy functions
def np_concat1(I_, parts):
    M = V()
    parts = [p for p in parts]
    ps = []
    for p in parts:
        if V().scalar(p):
            ps.append((1, lambda i, p=p: p))
        elif isinstance(p, M.Slice):
            if p.lo is None or p.hi is None or (p.step is not None and conc(p.step) != 1):
                raise Unsupported('slice in np.r_')
            lo, hi = iv(p.lo), iv(p.hi)
            ps.append((ite(norm(hi > lo), norm(hi - lo), 0), lambda i, lo=lo: norm(lo + iv(i))))
        else:
            a = as_arr(I_, p)
            if a.ndim == 0:
                v = a.get()
                ps.append((1, lambda i, v=v: v))
            elif a.ndim == 1:
                ps.append((a.shape[0], a.snap()))
            else:
                raise Unsupported('np.r_ of 2-d arrays')
    n = 0
    offs = []
    for l, f in ps:
        offs.append(n)
        n = norm(iv(n) + iv(l))

    def fn(i):
        r = None
        for (l, f), o in reversed(list(zip(ps, offs))):
            v = f(norm(iv(i) - iv(o)))
            r = v if r is None else ite(norm(iv(i) < norm(iv(o) + iv(l))), v, r)
        return r
    if not ps:
        return M.Arr([0], lambda i: 0)
    return M.Arr([n], fn)


def concat2(I_, arrs, axis):
    M = V()
    o = 1 - axis
    for a in arrs[1:]:
        dim_eq(I_, a.shape[o], arrs[0].shape[o], 'concatenation')
    fs = [a.snap() for a in arrs]
    n, offs = 0, []
    for a in arrs:
        offs.append(n)
        n = norm(iv(n) + iv(a.shape[axis]))

    def fn(i, j):
        k, other = (i, j) if axis == 0 else (j, i)
        r = None
        for a, f, of in reversed(list(zip(arrs, fs, offs))):
            kk = norm(iv(k) - iv(of))
            v = f(kk, other) if axis == 0 else f(other, kk)
            r = v if r is None else ite(norm(iv(k) < norm(iv(of) + iv(a.shape[axis]))), v, r)
        return r
    shape = [n, arrs[0].shape[1]] if axis == 0 else [arrs[0].shape[0], n]
    return M.Arr(shape, fn)


def rows_of(I_, x, axis):
    a = as_arr(I_, x)
    if a.ndim == 1 and axis == 0:
        f = a.snap()
        return V().Arr([1, a.shape[0]], lambda i, j: f(j))
    return a


def np_delete(I_, a, idx, axis=None):
    M = V()
    a = as_arr(I_, a)
    if axis is not None:
        axis = conc(axis)
        if axis < 0:
            axis += a.ndim
    if a.ndim == 1:
        axis = 0
    if axis is None:
        raise Unsupported('np.delete without axis')
    n = a.shape[axis]
    f = a.snap()
    if V().scalar(idx) or (isinstance(idx, M.Arr) and idx.ndim == 0):
        k = norm_index(I_, idx if V().scalar(idx) else idx.get(), n, 'np.delete')
        src = lambda j: norm(z3.If(iv(j) < iv(k), iv(j), iv(j) + 1))
        m = norm(iv(n) - 1)
        tag = {'deleted': (k, n)}
        if a.ndim == 2 and axis == 1:
            E = Enum(lambda j: iv(j) != iv(k))
            I_.add(L.skip1(E, k, n), L.enum_facts(E, n))
            I_.deletions.append((E, n))
            I_.forked.append(k)
    else:
        sq = to_seq(I_, idx)
        g = I_.fresh('ix')
        e = sq.at(g) if conc(sq.n) != 0 else 0
        if conc(sq.n) != 0:
            I_.prove('np.delete index in bounds', z3.Implies(z3.And(0 <= g, g < iv(sq.n)), z3.And(0 <= iv(e), iv(e) < iv(n))))
        inset, w = member_pred(I_, sq)
        E = Enum(lambda j: Not(inset(j)))
        I_.add(L.enum_facts(E, n))
        src = lambda j: E.at(iv(j))
        m = E.cnt(n)
        tag = {'kept': (E, n)}
        (I_.deletions if a.ndim == 2 and axis == 1 else I_.deletions1).append((E, n))
    shape = list(a.shape)
    shape[axis] = m
    r = M.Arr(shape, lambda *ix: f(*[src(j) if d == axis else j for d, j in enumerate(ix)]), dt=a.dt)
    return r


def np_where(I_, a, k):
    M = V()
    if len(a) == 3:
        c, x, y = [as_arr(I_, t) for t in a]
        s1, f1, g1 = broadcast(I_, c, x, 'where')
        s2, f2, g2 = broadcast(I_, c, y, 'where')
        fc, fx, fy = c.snap(), x.snap(), y.snap()
        return M.Arr(s1, lambda *ix: ite(bv(fc(*f1(ix))), fx(*g1(ix)), fy(*g2(ix))))
    return np_nonzero(I_, as_arr(I_, a[0]))


def np_nonzero(I_, c):
    M = V()
    f = c.snap()
    if c.ndim == 1:
        n = c.shape[0]
        E = Enum(lambda j: bv(f(j)))
        I_.add(L.enum_facts(E, n))
        I_.enums.append((E, n))
        return (M.Arr([E.cnt(n)], lambda j: E.at(iv(j)), tag={'enum': (E, n)}),)
    if c.ndim == 2:
        R, C = c.shape
        N = I_.fresh('nnz')
        r, cc, p = I_.fresh_fn('nzr', I, I), I_.fresh_fn('nzc', I, I), I_.fresh_fn('nzp', I, I, I)
        t, i, j, t2 = [fresh_int('q') for _ in range(4)]
        I_.add(N >= 0)
        I_.add(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N), z3.And(0 <= r(t), r(t) < iv(R), 0 <= cc(t), cc(t) < iv(C), zb(bv(f(r(t), cc(t)))),
                                                                      p(r(t), cc(t)) == t)), patterns=[r(t)]))
        I_.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < iv(R), 0 <= j, j < iv(C), zb(bv(f(i, j)))),
                                            z3.And(0 <= p(i, j), p(i, j) < N, r(p(i, j)) == i, cc(p(i, j)) == j)), patterns=[p(i, j)]))
        I_.add(z3.ForAll([t, t2], z3.Implies(z3.And(0 <= t, t < t2, t2 < N), z3.Or(r(t) < r(t2), z3.And(r(t) == r(t2), cc(t) < cc(t2)))),
                         patterns=[z3.MultiPattern(r(t), r(t2))]))
        I_.nonzeros.append((N, r, cc, p))
        return (M.Arr([N], lambda t: r(iv(t)), tag={'nz': (N, r, cc, p)}), M.Arr([N], lambda t: cc(iv(t)), tag={'nz': (N, r, cc, p)}))
    raise Unsupported('nonzero')


def quant(I_, v, isall):
    """all / any over an array, sequence or generator of truth values"""
    M = V()
    if isinstance(v, M.Arr):
        f = v.snap()
        dims = v.shape
        if not dims:
            return bv(f())
        cs = [conc(d) for d in dims]
        if all(c is not None and c <= 8 for c in cs) and len(cs) == 1:
            xs = [bv(f(i)) for i in range(cs[0])]
            return And(*xs) if isall else Or(*xs)
        if isall:
            r = FA(lambda *ix: Implies(And(*[rng(i, d) for i, d in zip(ix, dims)]), bv(f(*ix))), len(dims))
        else:
            r = EX(lambda *ix: And(*[rng(i, d) for i, d in zip(ix, dims)], bv(f(*ix))), len(dims))
        return norm(r)
    sq = to_seq(I_, v)
    c = conc(sq.n)
    if c is not None and c <= 64:
        xs = [I_.truth(sq.at(i)) for i in range(c)]
        return And(*xs) if isall else Or(*xs)
    if isall:
        return norm(FAr(sq.n, lambda i: I_.truth(sq.at(i))))
    return norm(EXr(sq.n, lambda i: I_.truth(sq.at(i))))


def arr_sum(I_, a, axis=None):
    M = V()
    f = a.snap()
    if a.ndim == 0:
        return iv(f())
    if a.ndim == 1:
        c = conc(a.shape[0])
        if c is not None and c <= 8:
            r = 0
            for i in range(c):
                r = scalar_op(I_, 'Add', r, f(i))
            return r
        return SUM(lambda j: iv(f(j)), a.shape[0])
    if a.ndim == 2 and axis is None:
        return SUM(lambda i: SUM(lambda j: iv(f(i, j)), a.shape[1]), a.shape[0])
    if a.ndim == 2:
        ax = conc(axis) % 2
        if ax == 1:
            return M.Arr([a.shape[0]], lambda i: SUM(lambda j: iv(f(i, j)), a.shape[1]))
        return M.Arr([a.shape[1]], lambda j: SUM(lambda i: iv(f(i, j)), a.shape[0]))
    raise Unsupported('sum')


def shape_arg(I_, x):
    M = V()
    if V().scalar(x):
        return [x]
    sq = to_seq(I_, x)
    return [sq.at(i) for i in range(conc(sq.n))]


def filled(val):
    def f(I_, a, k):
        shape = shape_arg(I_, a[0] if a else k['shape'])
        for s in shape:
            if conc(s) is None:
                I_.prove('array dimension is not negative', iv(s) >= 0)
        return typed(I_, V().Arr(shape, lambda *ix: val), a[1] if len(a) > 1 else k.get('dtype'))
    return f


def np_argsort(I_, a, k):
    M = V()
    x = as_arr(I_, a[0])
    if x.ndim != 1:
        raise Unsupported('argsort')
    f = x.snap()
    n = iv(x.shape[0])
    p, q = I_.fresh_fn('as', I, I), I_.fresh_fn('asi', I, I)
    i, j = fresh_int('q'), fresh_int('q')
    I_.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= p(i), p(i) < n, q(p(i)) == i)), patterns=[p(i)]))
    I_.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)), patterns=[q(i)]))
    kind = k.get('kind', a[2] if len(a) > 2 else None)
    stable = kind in ('stable', 'mergesort') or k.get('stable') is True
    body = z3.Or(iv(f(p(i))) < iv(f(p(j))), z3.And(iv(f(p(i))) == iv(f(p(j))), (p(i) < p(j)) if stable else z3.BoolVal(True)))
    I_.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), body), patterns=[z3.MultiPattern(p(i), p(j))]))
    sub = lambda s, t: z3.Implies(z3.And(0 <= s, s < t, t < n), z3.substitute(body, (i, iv(s)), (j, iv(t))))
    I_.perms.append((p, q, n, sub))
    return M.Arr([x.shape[0]], lambda i: p(iv(i)), tag={'perm': (p, q, n)})


def np_argmin(I_, a, k, sign=1):
    x = as_arr(I_, a[0])
    if x.ndim != 1:
        raise Unsupported('argmin')
    n = iv(x.shape[0])
    I_.prove('argmin of a non-empty array', n > 0)
    f = x.snap()
    m = I_.fresh('amin')
    I_.add(0 <= m, m < n, FAr(n, lambda i: sign * iv(f(m)) <= sign * iv(f(i))))
    I_.add(FAr(m, lambda i: sign * iv(f(m)) < sign * iv(f(i))))
    return m


def np_minmax(I_, a, sign):
    x = as_arr(I_, a)
    if x.ndim != 1:
        raise Unsupported('min/max')
    n = iv(x.shape[0])
    I_.prove('min/max of a non-empty array', n > 0)
    f = x.snap()
    m = I_.fresh('mn')
    w = I_.fresh('mw')
    I_.add(0 <= w, w < n, m == iv(f(w)), FAr(n, lambda i: sign * m <= sign * iv(f(i))))
    return m


def np_array_equal(I_, a, k):
    M = V()
    x, y = a[0], a[1]
    if not isinstance(x, M.Arr) and not isinstance(y, M.Arr):
        sx, sy = to_seq(I_, x), to_seq(I_, y)
        return val_eq(I_, M.Seq(sx.n, sx.at), M.Seq(sy.n, sy.at))
    x, y = as_arr(I_, x), as_arr(I_, y)
    if x.ndim != y.ndim:
        return False
    conds = []
    for p, q in zip(x.shape, y.shape):
        if not same(p, q):
            c = norm(iv(p) == iv(q))
            if c is False:
                return False
            conds.append(c)
    f, g = x.snap(), y.snap()
    body = FA(lambda *ix: Implies(And(*[rng(i, d) for i, d in zip(ix, x.shape)]), scalar_cmp('Eq', f(*ix), g(*ix))), x.ndim) if x.ndim \
        else scalar_cmp('Eq', f(), g())
    return norm(And(*conds, body))


def np_diff(I_, a, k):
    M = V()
    x = as_arr(I_, a[0])
    f = x.snap()
    n = x.shape[0]
    c = conc(n)
    if c is not None:
        m = max(0, c - 1)
    elif T(I_, iv(n) >= 1):
        m = norm(iv(n) - 1)
    else:
        m = norm(z3.If(iv(n) >= 1, iv(n) - 1, 0))
    return M.Arr([m], lambda i: norm(iv(f(norm(iv(i) + 1))) - iv(f(i))))


def np_repeat(I_, a, k):
    M = V()
    x = as_arr(I_, a[0])
    reps = a[1] if len(a) > 1 else k['repeats']
    axis = k.get('axis', a[2] if len(a) > 2 else None)
    f = x.snap()
    if V().scalar(reps):
        I_.prove('repeat count is not negative', iv(reps) >= 0)
        if x.ndim == 2 and axis is not None and conc(x.shape[conc(axis)]) == 1:
            ax = conc(axis)
            shape = list(x.shape)
            shape[ax] = reps
            return M.Arr(shape, lambda *ix: f(*[0 if d == ax else i for d, i in enumerate(ix)]))
    elif x.ndim in (1, 2):
        r = as_arr(I_, reps)
        ax = 0 if x.ndim == 1 else conc(axis)
        if ax is None:
            raise Unsupported('np.repeat')
        dim_eq(I_, r.shape[0], x.shape[ax], 'np.repeat')
        rf = r.snap()
        I_.prove('repeat counts are not negative', FAr(r.shape[0], lambda i: iv(rf(i)) >= 0))
        fl = flatten(I_, M.Seq(r.shape[0], lambda i: M.Seq(rf(i), lambda p: i)))
        shape = list(x.shape)
        shape[ax] = fl.n
        return M.Arr(shape, lambda *ix: f(*[fl.at(i) if d == ax else i for d, i in enumerate(ix)]))
    raise Unsupported('np.repeat')


def hstack(I_, a, k, axis=1):
    M = V()
    v = a[0]
    sq = to_seq(I_, v)
    n = conc(sq.n)
    if n is not None and n <= 16:
        items = [sq.at(i) for i in range(n)]
        arrs = [x if V().scalar(x) else as_arr(I_, x) for x in items]
        if any(isinstance(x, M.Arr) and x.ndim == 2 for x in arrs):
            return concat2(I_, [rows_of(I_, x, axis) for x in arrs], axis)
        if axis == 0:
            return concat2(I_, [rows_of(I_, x, 0) for x in arrs], 0)
        return np_concat1(I_, arrs)
    g = sq.at(I_.fresh('gen'))
    if not isinstance(g, M.Arr):
        raise Unsupported('stack of a symbolic sequence')
    if g.ndim == 1 and axis == 1:
        fl = flatten(I_, M.Seq(sq.n, lambda i: to_seq(I_, sq.at(i))))
        return M.Arr([fl.n], lambda t: fl.at(t), tag={'flat': fl.tag.get('flat')})
    if g.ndim == 2 and axis == 1:
        fl = flatten(I_, M.Seq(sq.n, lambda i: M.Seq(sq.at(i).shape[1], lambda p: (i, p))))
        rows = sq.at(0).shape[0]
        gi = I_.fresh('ix')
        I_.prove('rows agree (hstack)', z3.Implies(z3.And(0 <= gi, gi < iv(sq.n)), iv(sq.at(gi).shape[0]) == iv(rows)))
        I_.prove('hstack of at least one array', iv(sq.n) > 0)

        def fn(r, t):
            i, p = fl.at(t)
            return sq.at(i).get(r, p)
        return M.Arr([rows, fl.n], fn, tag={'flat': fl.tag.get('flat')})
    raise Unsupported('stack of a symbolic sequence')


def np_vectorize(I_, a, k):
    M = V()
    f = a[0]

    def app(I2, args, kw):
        x = as_arr(I2, args[0])
        X = I2.fresh('elt')
        mark = len(I2.assume)
        lo = I2.symno
        I2.generic += 1
        try:
            r = I2.call(f, [X], {})
        finally:
            I2.generic -= 1
        if I2.symno != lo or len(I2.assume) != mark or not V().scalar(r):
            raise Unsupported('np.vectorize of a complicated function')
        g = x.snap()
        return M.Arr(x.shape, lambda *ix: norm(z3.substitute(iv(r), (X, iv(g(*ix))))) if is_z(r) else r)
    return M.Builtin('vectorized', app)


SQRT = z3.Function('SQRT', z3.RealSort(), z3.RealSort())


def np_sqrt(I_, a, k):
    x = a[0]
    if not V().scalar(x):
        raise Unsupported('sqrt of an array')
    x = iv(x)
    x = z3.ToReal(x) if z3.is_int(x) else x
    I_.prove('sqrt of a non-negative number', x >= 0)
    s = SQRT(x)
    I_.add(s >= 0, s * s == x)
    return s


def py_int(I_, a, k):
    M = V()
    if not a:
        return 0
    x = a[0]
    if isinstance(x, bool) or isinstance(x, int):
        return int(x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise M.PyRaise(I_.make_exc('ValueError'))
    if is_z(x):
        if z3.is_bool(x):
            return iv(x)
        if z3.is_int(x):
            return x
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
            return x.arg(0)
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    if hasattr(x, 'to_int'):
        return x.to_int(I_)
    raise Unsupported(f'int of {type(x).__name__}')


def py_round(I_, a, k):
    x = a[0]
    if len(a) > 1:
        raise Unsupported('round to digits')
    if isinstance(x, int):
        return x
    if z3.is_int(x):
        return x
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
        return x.arg(0)
    I_.prove('a float that is rounded is small enough to be exact', z3.And(x < 2 ** 53, x > -2 ** 53))
    r = I_.fresh('rnd')
    I_.add(2 * (z3.ToReal(r) - x) <= 1, 2 * (x - z3.ToReal(r)) <= 1)
    return r


# ------------------------------------------------------------------------------------------------ attributes of values
def value_attr(I_, o, n):
    M = V()
    B = M.Builtin
    if isinstance(o, M.Arr):
        return arr_attr(I_, o, n)
    if isinstance(o, (M.PyList, SymSlot)):
        l = o
        if n == 'append':
            return B('list.append', lambda I2, a, k: list_append(I2, l, a[0]))
        if n == 'extend':
            return B('list.extend', lambda I2, a, k: list_extend(I2, l, a[0]))
        if n == 'clear':
            return B('list.clear', lambda I2, a, k: list_replace(I2, l, M.Seq(0, lambda i: None)))
        if n == 'copy':
            return B('list.copy', lambda I2, a, k: M.PyList(items=list(l.items)) if l.is_conc() else M.PyList(seq=l.seq))
        if n == 'sort':
            def sort(I2, a, k):
                if l.is_conc() and len(l.items) <= 1:
                    return None
                import autoloop
                r = permuted(I2, to_seq(I2, l))
                r.tag['sorted'] = (k.get('key'), k.get('reverse'))
                autoloop.sorted_facts(I2, r, k)
                list_replace(I2, l, r)
            return B('list.sort', sort)
        if n == 'reverse':
            def rev(I2, a, k):
                sq = to_seq(I2, l)
                back = lambda i: norm(iv(sq.n) - 1 - iv(i))
                list_replace(I2, l, M.Seq(sq.n, lambda i: sq.at(back(i)), {'perm': (back, back, sq)}))
            return B('list.reverse', rev)
        if n in ('pop', 'popleft'):
            def pop(I2, a, k):
                sq = to_seq(I2, l)
                ix = a[0] if a else (-1 if n == 'pop' else 0)
                I2.prove('pop from a non-empty list', iv(sq.n) > 0)
                kk = conc(ix)
                if kk == -1:
                    v = sq.at(norm(iv(sq.n) - 1))
                    r = M.Seq(norm(iv(sq.n) - 1), sq.at, {'removed': (sq, norm(iv(sq.n) - 1))})
                elif kk == 0:
                    v = sq.at(0)
                    r = M.Seq(norm(iv(sq.n) - 1), lambda i: sq.at(norm(iv(i) + 1)), {'removed': (sq, 0)})
                else:
                    raise Unsupported('pop index')
                list_replace(I2, l, r)
                if hasattr(v, 'materialize'):
                    v = v.materialize(I2)
                I2.popped.append(v)
                return v
            return B('list.pop', pop)
        if n == 'appendleft':
            def apl(I2, a, k):
                list_replace(I2, l, concat_seqs(I2, to_seq(I2, (a[0],)), to_seq(I2, l)))
            return B('deque.appendleft', apl)
        if n == 'insert':
            def ins(I2, a, k):
                if conc(a[0]) != 0:
                    raise Unsupported('list.insert')
                list_replace(I2, l, concat_seqs(I2, to_seq(I2, (a[1],)), to_seq(I2, l)))
            return B('list.insert', ins)
        if n == 'index':
            raise Unsupported('list.index')
    if isinstance(o, M.PyDict):
        d = o
        if n == 'items':
            return B('dict.items', lambda I2, a, k: d.sym.items_seq() if d.sym is not None else to_seq(I2, [(x, y) for x, y in d.items.items()]))
        if n == 'keys':
            return B('dict.keys', lambda I2, a, k: d.sym.keys_seq() if d.sym is not None else to_seq(I2, list(d.items)))
        if n == 'values':
            return B('dict.values', lambda I2, a, k: d.sym.values_seq() if d.sym is not None else to_seq(I2, list(d.items.values())))
        if n == 'setdefault':
            def sd(I2, a, k):
                if is_z(a[0]) and conc(a[0]) is None:
                    if not d.items and isinstance(a[1], M.PyList) and a[1].is_conc() and not a[1].items:
                        d.default = d.default or I2.builtins['list']
                        return SymSlot(d, a[0])
                    raise Unsupported('setdefault')
                return d.items.setdefault(conc(a[0]) if is_z(a[0]) else a[0], a[1])
            return B('dict.setdefault', sd)
        if n == 'get':
            def get(I2, a, k):
                x = conc(a[0]) if is_z(a[0]) else a[0]
                if d.sym is not None or (is_z(a[0]) and x is None):
                    raise Unsupported('dict.get')
                return d.items.get(x, a[1] if len(a) > 1 else None)
            return B('dict.get', get)
    if isinstance(o, M.PySet):
        if n == 'add':
            raise Unsupported('set.add')
    if isinstance(o, M.NTVal):
        if n in o.cls.fields:
            return o.vals[o.cls.fields.index(n)]
        if n == '_replace':
            def rep(I2, a, k):
                return M.NTVal(o.cls, [k.get(f, v) for f, v in zip(o.cls.fields, o.vals)])
            return B('_replace', rep)
    if isinstance(o, str):
        return str_attr(I_, o, n)
    if isinstance(o, M.Opaque):
        return M.Builtin('opaque.' + n, lambda I2, a, k: M.Opaque(n))
    if isinstance(o, M.Seq) and n in ('count', 'index'):
        raise Unsupported('sequence method')
    if hasattr(o, 'attr'):
        return o.attr(I_, n)
    if V().scalar(o):
        if n == 'astype':
            return B('astype', lambda I2, a, k: o)
        if n == 'item':
            return B('item', lambda I2, a, k: o)
        if n == 'bit_length':
            return B('bit_length', lambda I2, a, k: BLEN(iv(o)))
        if n == 'sum':
            return B('sum', lambda I2, a, k: o)
    raise Unsupported(f'attribute {n} of {type(o).__name__}')


def str_attr(I_, o, n):
    B = V().Builtin
    if n == 'split':
        return B('str.split', lambda I2, a, k: V().PyList(o.split(*a)))
    if n == 'startswith':
        return B('str.startswith', lambda I2, a, k: o.startswith(a[0]))
    if n == 'join':
        return B('str.join', lambda I2, a, k: V().Opaque('text'))
    if n == 'format':
        return B('str.format', lambda I2, a, k: V().Opaque('text'))
    raise Unsupported(f'str.{n}')


def dtype_kind(I_, t):
    """'int' (int8 is one of the assumptions), 'obj', 'bool'; anything else is outside the subset"""
    if t is None:
        return None
    for nm, kind in (('object', 'obj'), ('int', 'int'), ('bool', 'bool')):
        if t is I_.builtins.get(nm):
            return kind
    nm = t if isinstance(t, str) else getattr(t, 'name', None) or getattr(t, 'what', None)
    nm = nm.split('.')[-1] if isinstance(nm, str) else None
    kind = {'object_': 'obj', 'object': 'obj', 'O': 'obj', 'bool_': 'bool', 'bool': 'bool', '?': 'bool',
            'int64': 'int', 'int': 'int', 'int_': 'int', 'int8': 'int8'}.get(nm)
    if kind is None:           # e.g. the dtype of some array: of the data, one of the above
        raise Unsupported(f'dtype {nm}')
    return kind


def typed(I_, r, t, narrow=True):
    """the new array r with dtype t"""
    kind = dtype_kind(I_, t)
    if kind == 'int8' and not narrow:
        raise Unsupported('conversion to int8')
    if kind == 'obj':
        r.dt = 'obj'
    elif kind == 'bool' and r.dt != 'bool':
        f = r.snap()
        r = V().Arr(r.shape, lambda *ix: bv(f(*ix)) if isinstance(f(*ix), bool) or is_z(f(*ix)) and z3.is_bool(f(*ix)) else norm(iv(f(*ix)) != 0), dt='bool')
    elif kind in ('int', 'int8') and r.dt == 'bool':
        f = r.snap()
        r = V().Arr(r.shape, lambda *ix: ite(bv(f(*ix)), 1, 0))
    elif kind in ('int', 'int8') and r.dt == 'obj':
        raise Unsupported('conversion of exact integers to machine integers')
    return r


def arr_attr(I_, o, n):
    M = V()
    B = M.Builtin
    if n == 'shape':
        return tuple(o.shape)
    if n == 'size':
        return arr_size(o)
    if n == 'ndim':
        return o.ndim
    if n == 'dtype':
        return M.Opaque('dtype')
    if n == 'T':
        if o.ndim < 2:
            return o
        return M.Arr([o.shape[1], o.shape[0]], store=o.store, map=lambda i, j: o.map(j, i),
                     inv=lambda *b: (o.inv(*b)[0], o.inv(*b)[1][::-1]), dt=o.dt)
    if n == 'copy':
        return B('copy', lambda I2, a, k: np_array(I2, o))
    if n == 'astype':
        def astype(I2, a, k):
            if k.get('copy', True) is not True:
                raise Unsupported('astype(copy=...)')
            return typed(I2, np_array(I2, o), a[0] if a else k.get('dtype'), o.dt == 'bool')
        return B('astype', astype)
    if n == 'sum':
        return B('sum', lambda I2, a, k: arr_sum(I2, o, a[0] if a else k.get('axis')))
    if n in ('any', 'all'):
        return B(n, lambda I2, a, k: quant(I2, o, n == 'all'))
    if n == 'nonzero':
        return B('nonzero', lambda I2, a, k: np_nonzero(I2, o))
    if n == 'dot':
        return B('dot', lambda I2, a, k: matmul(I2, o, a[0]))
    if n == 'reshape':
        def reshape(I2, a, k):
            dims = list(a) if len(a) > 1 else shape_arg(I2, a[0])
            if o.ndim == 1 and len(dims) == 2:
                if conc(dims[0]) == 1:
                    if conc(dims[1]) != -1:
                        dim_eq(I2, dims[1], o.shape[0], 'reshape')
                    return M.Arr([1, o.shape[0]], store=o.store, map=lambda i, j: o.map(j), dt=o.dt, inv=lambda *ix: _r1(o.inv(*ix), 0))
                if conc(dims[1]) == 1:
                    if conc(dims[0]) != -1:
                        dim_eq(I2, dims[0], o.shape[0], 'reshape')
                    return M.Arr([o.shape[0], 1], store=o.store, map=lambda i, j: o.map(i), dt=o.dt, inv=lambda *ix: _r1(o.inv(*ix), 1))
            raise Unsupported('reshape')
        return B('reshape', reshape)
    if n == 'argmin':
        return B('argmin', lambda I2, a, k: np_argmin(I2, [o], k))
    if n == 'argsort':
        return B('argsort', lambda I2, a, k: np_argsort(I2, [o] + list(a), k))
    if n in ('min', 'max'):
        return B(n, lambda I2, a, k: np_minmax(I2, o, 1 if n == 'min' else -1))
    if n == 'tolist':
        return B('tolist', lambda I2, a, k: M.PyList(seq=to_seq(I2, o)))
    if n == 'trace':
        return B('trace', lambda I2, a, k: np_trace(I2, o))
    if n in ('flatten', 'ravel') and o.ndim == 1:
        return B(n, lambda I2, a, k: np_array(I2, o))
    if n == 'fill':
        return B('fill', lambda I2, a, k: arr_assign_all(I2, o, a[0]))
    raise Unsupported(f'ndarray.{n}')


def _r1(ci, where):
    c, (j,) = ci
    return c, ((0, j) if where == 0 else (j, 0))


def np_trace(I_, a):
    a = as_arr(I_, a)
    f = a.snap()
    dim_eq(I_, a.shape[0], a.shape[1], 'trace')
    return SUM(lambda i: iv(f(i, i)), a.shape[0])


def format_str(I_, e, env, m):
    import ast as A
    M = V()
    parts = []
    for x in e.values:
        if isinstance(x, A.Constant):
            parts.append(x.value)
        else:
            try:
                v = I_.ev(x.value, env, m)
            except Unsupported:
                return M.Opaque('text')
            if isinstance(v, str) and x.format_spec is None:
                parts.append(v)
            elif isinstance(v, int) and not isinstance(v, bool) and x.format_spec is None:
                parts.append(str(v))
            else:
                parts.append(v if x.format_spec is None else M.Opaque('formatted'))
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    import strs
    return strs.make(parts)


# ------------------------------------------------------------------------------------------------ builtins
def make_builtins(I0):
    M = V()
    B = M.Builtin
    d = {}

    def reg(name, f):
        d[name] = B(name, f)
    exc = M.ExcClass('Exception')
    d['BaseException'] = d['Exception'] = exc
    for n in ('AssertionError', 'ValueError', 'TypeError', 'AttributeError', 'RuntimeError', 'StopIteration', 'NotImplementedError',
              'ArithmeticError', 'ImportError', 'OverflowError'):
        d[n] = M.ExcClass(n, exc)
    d['LookupError'] = M.ExcClass('LookupError', exc)
    d['IndexError'] = M.ExcClass('IndexError', d['LookupError'])
    d['KeyError'] = M.ExcClass('KeyError', d['LookupError'])
    d['ZeroDivisionError'] = M.ExcClass('ZeroDivisionError', d['ArithmeticError'])
    d['ModuleNotFoundError'] = M.ExcClass('ModuleNotFoundError', d['ImportError'])
    d['SystemExit'] = M.ExcClass('SystemExit', None)
    d['__debug__'] = True
    d['object'] = M.UserClass('object', {}, [], None)

    def ln(I_, a, k):
        v = a[0]
        if isinstance(v, str):
            return len(v)
        if isinstance(v, M.Obj):
            f = v.cls.find('__len__')
            return I_.call(f, [v], {})
        if isinstance(v, M.Arr):
            return v.shape[0]
        if isinstance(v, M.PyDict):
            return v.sym.keys_seq().n if v.sym is not None else len(v.items)
        return to_seq(I_, v).n
    reg('len', ln)

    def rangef(I_, a, k):
        if len(a) == 1:
            return M.RangeV(0, a[0])
        if len(a) == 2:
            return M.RangeV(a[0], a[1])
        s = conc(a[2])
        if s not in (1, -1):
            raise Unsupported('range step')
        return M.RangeV(a[0], a[1], s)
    reg('range', rangef)

    def zipf(I_, a, k):
        if len(a) == 1 and isinstance(a[0], M.StarSeq):
            sq = a[0].sq
            mark, lo = len(I_.assume), I_.symno
            t = sq.at(z3.Int('_probe'))
            if not isinstance(t, (tuple, M.NTVal)):
                raise Unsupported('zip(*symbolic)')
            w = len(t)
            seqs = [M.Seq(sq.n, lambda i, c=c: sq.at(i)[c], {'listlike': True}) for c in range(w)]
            z = ZipStar(sq, seqs)
            return z
        if any(isinstance(x, M.StarSeq) for x in a):
            raise Unsupported('zip(*symbolic)')
        sqs = [to_seq(I_, x) for x in a]
        n = sqs[0].n
        for s in sqs[1:]:
            if same(n, s.n):
                continue
            if T(I_, iv(n) <= iv(s.n)):
                continue
            if T(I_, iv(s.n) <= iv(n)):
                n = s.n
                continue
            n = norm(z3.If(iv(n) <= iv(s.n), iv(n), iv(s.n)))
        return M.Seq(n, lambda i: tuple(s.at(i) for s in sqs))
    reg('zip', zipf)

    def enum(I_, a, k):
        sq = to_seq(I_, a[0])
        st = a[1] if len(a) > 1 else k.get('start', 0)
        return M.Seq(sq.n, lambda i: (norm(iv(i) + iv(st)) if not (conc(i) is not None and conc(st) is not None) else conc(i) + conc(st), sq.at(i)))
    reg('enumerate', enum)

    def mapf(I_, a, k):
        if len(a) == 2:
            v = a[1]
            if isinstance(v, M.GenObj) and I_.contract_of(v.fn) is None:
                out = []
                I_.run_gen(v, lambda x: out.append(I_.call(a[0], [x], {})))
                return to_seq(I_, out)
            r = map_seq(I_, to_seq(I_, v), lambda x: I_.call(a[0], [x], {}))
            return r
        sqs = [to_seq(I_, x) for x in a[1:]]
        z = zipf(I_, a[1:], {})
        return map_seq(I_, z, lambda t: I_.call(a[0], list(t), {}))
    reg('map', mapf)

    def filterf(I_, a, k):
        sq = to_seq(I_, a[1])
        n = conc(sq.n)
        if n is not None and n <= 32:
            out = []
            for i in range(n):
                v = sq.at(i)
                if I_.decide(I_.truth(v if a[0] is None else I_.call(a[0], [v], {}))):
                    out.append(v)
            return to_seq(I_, out)
        cs = map_seq(I_, sq, lambda x: I_.truth(x if a[0] is None else I_.call(a[0], [x], {})))
        E = Enum(lambda i: cs.at(i))
        I_.add(L.enum_facts(E, sq.n))
        r = M.Seq(E.cnt(sq.n), lambda j: sq.at(E.at(j)), {'filtered': (E, sq.n, sq)})
        I_.filtered.append(r)
        return r
    reg('filter', filterf)

    def listf(I_, a, k):
        if not a:
            return M.PyList([])
        sq = to_seq(I_, a[0])
        n = conc(sq.n)
        if n is not None and n <= 64:
            return M.PyList([sq.at(i) for i in range(n)])
        return M.PyList(seq=sq)
    reg('list', listf)

    def tuplef(I_, a, k):
        if not a:
            return ()
        sq = to_seq(I_, a[0])
        n = conc(sq.n)
        if n is not None and n <= 64:
            return tuple(sq.at(i) for i in range(n))
        return sq
    reg('tuple', tuplef)

    def setf(I_, a, k):
        if not a:
            raise Unsupported('set()')
        return M.PySet(to_seq(I_, a[0]))
    reg('set', setf)

    def dictf(I_, a, k):
        if not a and not k:
            return M.PyDict()
        if not a:
            return M.PyDict(k)
        sq = to_seq(I_, a[0])
        n = conc(sq.n)
        if n is not None:
            return dict_from_pairs(I_, [sq.at(i) for i in range(n)])
        return dict_from_pairs(I_, sq)
    reg('dict', dictf)

    def sumf(I_, a, k):
        st = a[1] if len(a) > 1 else k.get('start', 0)
        v = a[0]
        sq = to_seq(I_, v)
        n = conc(sq.n)
        if n is not None and n <= 32:
            r = st
            for i in range(n):
                r = I_.binop('Add', r, sq.at(i))
            return r
        t = sq.at(z3.Int('_probe'))
        if V().scalar(t):
            return scalar_op(I_, 'Add', st, SUM(lambda i: iv(sq.at(i)), sq.n))
        if isinstance(st, M.PyList):
            return M.PyList(seq=concat_seqs(I_, to_seq(I_, st), flatten(I_, M.Seq(sq.n, lambda i: to_seq(I_, sq.at(i))))))
        raise Unsupported('sum of a symbolic sequence')
    reg('sum', sumf)

    def minmax(sign):
        def f(I_, a, k):
            if len(a) == 1:
                v = a[0]
                sq = to_seq(I_, v)
                n = conc(sq.n)
                if n is None:
                    if 'default' in k or 'key' in k:
                        raise Unsupported('min/max with default')
                    return np_minmax(I_, np_array(I_, v if isinstance(v, M.Arr) else sq), sign)
                a = [sq.at(i) for i in range(n)]
            r = a[0]
            for x in a[1:]:
                if not (V().scalar(r) and V().scalar(x)):
                    raise Unsupported('min/max')
                r = norm(ite(iv(x) < iv(r) if sign == 1 else iv(x) > iv(r), x, r))
            return r
        return f
    reg('min', minmax(1))
    reg('max', minmax(-1))

    def absf(I_, a, k):
        x = a[0]
        if isinstance(x, int):
            return abs(x)
        return z3.If(x >= 0, x, -x)
    reg('abs', absf)
    reg('any', lambda I_, a, k: quant(I_, a[0], False))
    reg('all', lambda I_, a, k: quant(I_, a[0], True))
    reg('int', py_int)
    reg('round', py_round)
    reg('bool', lambda I_, a, k: I_.truth(a[0]) if a else False)

    def floatf(I_, a, k):
        x = iv(a[0])
        return z3.ToReal(x) if z3.is_int(x) else x
    reg('float', floatf)

    def reprf(I_, a, k):
        r = M.Opaque('repr')
        r.of = a[0]
        return r
    reg('repr', reprf)

    def strf(I_, a, k):
        if a and isinstance(a[0], int):
            return str(a[0])
        if a and isinstance(a[0], str):
            return a[0]
        if a and is_z(a[0]) and z3.is_int(a[0]):
            import strs
            return strs.make([a[0]])
        r = M.Opaque('str')
        r.of = a[0] if a else ''
        return r
    reg('str', strf)

    def printf(I_, a, k):
        I_.printed.append(a)
    reg('print', printf)

    def sortedf(I_, a, k):
        sq = to_seq(I_, a[0])
        if conc(sq.n) is not None and conc(sq.n) <= 1:
            return M.PyList([sq.at(i) for i in range(conc(sq.n))])
        r = permuted(I_, sq)
        r.tag['sorted'] = (k.get('key'), k.get('reverse'))
        import autoloop
        autoloop.sorted_facts(I_, r, k)
        return M.PyList(seq=r)
    reg('sorted', sortedf)

    def revf(I_, a, k):
        v = a[0]
        sq = to_seq(I_, v)
        n = sq.n
        back = lambda i: norm(iv(n) - 1 - iv(i))
        return M.Seq(n, lambda i: sq.at(norm(iv(n) - 1 - iv(i)) if not (conc(n) is not None and conc(i) is not None) else conc(n) - 1 - conc(i)),
                     {} if conc(n) is not None else {'perm': (back, back, sq)})
    reg('reversed', revf)

    def nextf(I_, a, k):
        z = a[0]
        if isinstance(z, ZipStar):
            if z.pos == 0:
                I_.prove('next() of a non-empty zip', iv(z.sq.n) > 0)
            if z.pos >= len(z.seqs):
                raise M.PyRaise(I_.make_exc('StopIteration'))
            z.pos += 1
            return z.seqs[z.pos - 1]
        if isinstance(z, IterV):
            c = conc(z.sq.n)
            if c is not None and z.pos < c:
                z.pos += 1
                return z.sq.at(z.pos - 1)
        raise Unsupported('next')
    reg('next', nextf)
    reg('iter', lambda I_, a, k: IterV(to_seq(I_, a[0])))

    def isinst(I_, a, k):
        o, c = a
        cs = c if isinstance(c, tuple) else (c,)
        if isinstance(o, M.Obj):
            return any(isinstance(x, (M.UserClass, M.ExcClass)) and o.cls.isa(x) for x in cs)
        names = {getattr(x, 'name', None) for x in cs}
        if isinstance(o, bool) or (is_z(o) and z3.is_bool(o)):
            return bool(names & {'bool', 'int'})
        if isinstance(o, int) or (is_z(o) and z3.is_int(o)):
            return 'int' in names
        if isinstance(o, tuple):
            return 'tuple' in names
        if isinstance(o, M.PyList):
            return 'list' in names
        if isinstance(o, M.Arr):
            return 'ndarray' in names
        raise Unsupported('isinstance')
    reg('isinstance', isinst)
    reg('property', lambda I_, a, k: M.Prop(a[0] if a else k.get('fget'), a[1] if len(a) > 1 else k.get('fset')))
    reg('classmethod', lambda I_, a, k: M.ClassM(a[0]))
    reg('staticmethod', lambda I_, a, k: M.ClassM(a[0], True))
    reg('id', lambda I_, a, k: M.Opaque('id'))
    reg('getattr', lambda I_, a, k: I_.getattr(a[0], a[1]))
    reg('divmod', lambda I_, a, k: (scalar_op(I_, 'FloorDiv', a[0], a[1]), scalar_op(I_, 'Mod', a[0], a[1])))

    def powf(I_, a, k):
        return scalar_op(I_, 'Pow', a[0], a[1])
    reg('pow', powf)
    return d


class ZipStar:
    def __init__(self, sq, seqs):
        self.sq, self.seqs, self.pos = sq, seqs, 0

    def to_seq(self, I_):
        I_.prove('zip(*...) of a non-empty sequence', iv(self.sq.n) > 0)
        return to_seq(I_, tuple(self.seqs))


class IterV:
    def __init__(self, sq):
        self.sq, self.pos = sq, 0

    def to_seq(self, I_):
        sq, p = self.sq, self.pos
        return V().Seq(norm(iv(sq.n) - p), lambda i: sq.at(norm(iv(i) + p)))


def heap_min_facts(I_, sq, k):
    pass


def make_modules(I0):
    M = V()
    B = M.Builtin
    NS = M.NS

    def b(name, f):
        return B(name, f)
    np_ = {}

    def reg(name, f):
        np_[name] = b('np.' + name, f)
    def arrayf(I_, a, k):
        return typed(I_, np_array(I_, a[0]), a[1] if len(a) > 1 else k.get('dtype'))
    reg('array', arrayf)
    reg('asarray', lambda I_, a, k: as_arr(I_, a[0]) if k.get('dtype') is None and len(a) == 1 else typed(I_, np_array(I_, a[0]), a[1] if len(a) > 1 else k.get('dtype')))
    reg('copy', lambda I_, a, k: np_array(I_, a[0]))
    reg('ones', filled(1))
    reg('zeros', filled(0))
    reg('zeros_like', lambda I_, a, k: M.Arr(as_arr(I_, a[0]).shape, lambda *ix: 0))
    reg('ones_like', lambda I_, a, k: M.Arr(as_arr(I_, a[0]).shape, lambda *ix: 1))

    def full(I_, a, k):
        v = a[1] if len(a) > 1 else k['fill_value']
        return typed(I_, M.Arr(shape_arg(I_, a[0]), lambda *ix: v), a[2] if len(a) > 2 else k.get('dtype'))
    reg('full', full)
    ident = lambda I_, a, k: typed(I_, M.Arr([a[0], a[0]], lambda i, j: norm(z3.If(iv(i) == iv(j), z3.IntVal(1), z3.IntVal(0)))), k.get('dtype')) if len(a) == 1 else _unsup('identity')
    reg('identity', ident)
    reg('eye', ident)

    def arange(I_, a, k):
        if len(a) == 1:
            lo, hi = 0, a[0]
        else:
            lo, hi = a[0], a[1]
        if len(a) > 2:
            raise Unsupported('arange step')
        if dtype_kind(I_, k.get('dtype')) not in (None, 'int', 'obj'):
            raise Unsupported('arange of a narrow type')
        return typed(I_, M.Arr([range_len(I_, lo, hi)], lambda i: norm(iv(i) + iv(lo))), k.get('dtype'))
    reg('arange', arange)
    reg('array_equal', np_array_equal)
    reg('diff', np_diff)
    reg('hstack', lambda I_, a, k: hstack(I_, a, k, 1))
    reg('vstack', lambda I_, a, k: hstack(I_, a, k, 0))

    def concatenate(I_, a, k):
        ax = conc(k.get('axis', a[1] if len(a) > 1 else 0))
        first = to_seq(I_, a[0]).at(0)
        if isinstance(first, M.Arr) and first.ndim == 1:
            return hstack(I_, [a[0]], {}, 1)
        return hstack(I_, [a[0]], {}, ax)
    reg('concatenate', concatenate)
    reg('where', np_where)
    reg('nonzero', lambda I_, a, k: np_nonzero(I_, as_arr(I_, a[0])))
    reg('flatnonzero', lambda I_, a, k: np_nonzero(I_, as_arr(I_, a[0]))[0])
    reg('any', lambda I_, a, k: quant(I_, a[0], False))
    reg('all', lambda I_, a, k: quant(I_, a[0], True))
    reg('sum', lambda I_, a, k: arr_sum(I_, as_arr(I_, a[0]), k.get('axis', a[1] if len(a) > 1 else None)))

    def append(I_, a, k):
        ax = k.get('axis', a[2] if len(a) > 2 else None)
        if ax is None:
            return np_concat1(I_, (a[0], a[1]))
        return concat2(I_, [as_arr(I_, a[0]), as_arr(I_, a[1])], conc(ax))
    reg('append', append)
    reg('delete', lambda I_, a, k: np_delete(I_, a[0], a[1], k.get('axis', a[2] if len(a) > 2 else None)))
    reg('argmin', lambda I_, a, k: np_argmin(I_, a, k))
    reg('argmax', lambda I_, a, k: np_argmin(I_, a, k, -1))
    reg('argsort', np_argsort)
    reg('ix_', lambda I_, a, k: Ix(list(a)))
    reg('min', lambda I_, a, k: np_minmax(I_, a[0], 1))
    reg('max', lambda I_, a, k: np_minmax(I_, a[0], -1))
    reg('repeat', np_repeat)
    reg('trace', lambda I_, a, k: np_trace(I_, a[0]))
    reg('vectorize', np_vectorize)
    reg('sqrt', np_sqrt)
    reg('dot', lambda I_, a, k: matmul(I_, a[0], a[1]))
    reg('matmul', lambda I_, a, k: matmul(I_, a[0], a[1]))

    def elementwise2(sel):
        def f(I_, a, k):
            x, y = as_arr(I_, a[0]), as_arr(I_, a[1])
            shape, fx, fy = broadcast(I_, x, y, 'elementwise')
            gx, gy = x.snap(), y.snap()
            r = lambda *ix: norm(ite(sel(iv(gx(*fx(ix))), iv(gy(*fy(ix)))), gx(*fx(ix)), gy(*fy(ix))))
            return M.Arr(shape, r) if shape else r()
        return f
    reg('minimum', elementwise2(lambda x, y: x <= y))
    reg('maximum', elementwise2(lambda x, y: x >= y))

    def cumsum(I_, a, k):
        x = as_arr(I_, a[0])
        f = x.snap()
        return M.Arr(x.shape, lambda i: SUM(lambda j: iv(f(j)), iv(i) + 1))
    reg('cumsum', cumsum)
    reg('abs', lambda I_, a, k: M.Arr(as_arr(I_, a[0]).shape, (lambda f: lambda *ix: z3.If(iv(f(*ix)) >= 0, iv(f(*ix)), -iv(f(*ix))))(as_arr(I_, a[0]).snap())))
    for n in ('int8', 'int16', 'int32', 'int64', 'uint8', 'bool_', 'float64', 'object_', 'ndarray'):
        np_[n] = M.Opaque(n) if n != 'ndarray' else b('ndarray', lambda I_, a, k: M.Opaque('x'))
    np_['int64'] = b('np.int64', py_int)
    np_['newaxis'] = M.Opaque('newaxis')
    np_['r_'] = NS('numpy.r_', {})
    mods = {'numpy': NS('numpy', np_)}

    def partial(I_, a, k):
        return M.PartialV(a[0], list(a[1:]), dict(k))

    def reduce_(I_, a, k):
        import autoloop
        return autoloop.reduce_(I_, a)
    ft = {'partial': b('partial', partial), 'reduce': b('reduce', reduce_),
          'wraps': b('wraps', lambda I_, a, k: b('wraps()', lambda I2, a2, k2: _wraps(a[0], a2[0]))),
          'cmp_to_key': b('cmp_to_key', lambda I_, a, k: CmpKey(a[0])),
          'lru_cache': b('lru_cache', lambda I_, a, k: M.BadDef('a cached function'))}
    mods['functools'] = NS('functools', ft)
    chain = b('chain', lambda I_, a, k: flatten(I_, to_seq(I_, a[0].sq)) if len(a) == 1 and isinstance(a[0], M.StarSeq)
              else flatten(I_, M.Seq(len(a), lambda i: to_seq(I_, a[conc(i)]))))

    class ChainV(M.Builtin):
        def attr(self, I_, n):
            if n == 'from_iterable':
                return b('chain.from_iterable', lambda I2, a, k: flatten(I2, to_seq(I2, a[0])))
            raise Unsupported('chain.' + n)
    mods['itertools'] = NS('itertools', {'chain': ChainV('chain', chain.f),
                                         'repeat': b('repeat', lambda I_, a, k: M.Seq(a[1], lambda i: a[0]) if len(a) > 1 else _unsup('repeat'))})
    typing = {n: M.Opaque(n) for n in ('Iterator', 'List', 'Tuple', 'Optional', 'Iterable', 'Any', 'Dict', 'Callable', 'Generator', 'Set', 'Union')}
    mods['typing'] = NS('typing', typing)
    mods['sys'] = NS('sys', {'argv': M.Opaque('argv'), 'exit': b('sys.exit', _sysexit)})
    mods['math'] = NS('math', {'isqrt': b('math.isqrt', _isqrt), 'sqrt': b('math.sqrt', np_sqrt)})
    mods['operator'] = NS('operator', {'add': b('operator.add', lambda I_, a, k: I_.binop('Add', a[0], a[1])),
                                       'itemgetter': b('itemgetter', lambda I_, a, k: b('getter', lambda I2, a2, k2: I2.getitem(a2[0], a[0]))),
                                       'mul': b('operator.mul', lambda I_, a, k: I_.binop('Mult', a[0], a[1]))})

    def namedtuple(I_, a, k):
        f = a[1]
        fields = f.replace(',', ' ').split() if isinstance(f, str) else [x for x in f.items]
        return M.NTClass(a[0], fields)

    def defaultdict(I_, a, k):
        return M.PyDict(default=a[0] if a else None)

    def deque(I_, a, k):
        r = d_list(I_, a, k)
        return r
    d_list = I0.builtins['list'].f if hasattr(I0, 'builtins') else None
    mods['collections'] = NS('collections', {'namedtuple': b('namedtuple', namedtuple), 'defaultdict': b('defaultdict', defaultdict),
                                             'deque': b('deque', deque), 'OrderedDict': b('OrderedDict', lambda I_, a, k: M.PyDict())})

    def heappop(I_, a, k):
        l = a[0]
        sq = to_seq(I_, l)
        c = conc(sq.n)
        I_.prove('heappop of a non-empty list', iv(sq.n) > 0)
        if c == 1:
            v = sq.at(0)
            list_replace(I_, l, M.Seq(0, lambda i: None))
            I_.popped.append(v)
            return v
        p = I_.fresh('hp')
        I_.add(0 <= p, p < iv(sq.n))
        v = sq.at(p)
        I_.popped.append(v)
        r = removed(I_, sq, p)
        list_replace(I_, l, r)
        return v

    def heappush(I_, a, k):
        l = a[0]
        r = permuted(I_, concat_seqs(I_, to_seq(I_, l), to_seq(I_, (a[1],))))
        list_replace(I_, l, r)

    def heapify(I_, a, k):
        list_replace(I_, a[0], permuted(I_, to_seq(I_, a[0])))

    def merge(I_, a, k):
        r = M.Seq(0, lambda i: None)
        for x in a:
            r = concat_seqs(I_, r, to_seq(I_, x))
        if conc(r.n) is not None and conc(r.n) <= 1:
            return r
        return permuted(I_, r)
    mods['heapq'] = NS('heapq', {'heappop': b('heapq.heappop', heappop), 'heappush': b('heapq.heappush', heappush),
                                 'heapify': b('heapq.heapify', heapify), 'merge': b('heapq.merge', merge)})
    mods['pprint'] = NS('pprint', {'pprint': b('pprint', lambda I_, a, k: I_.printed.append(a))})
    mods['os'] = NS('os', {})
    import strs
    strs.modules(I0, mods)
    return mods


def _unsup(x):
    raise Unsupported(x)


def _wraps(f, g):
    M = V()
    if isinstance(g, M.UserFunc) and isinstance(f, M.UserFunc):
        g.attrs['__name__'] = f.name
    return g


def _sysexit(I_, a, k):
    raise V().PyRaise(I_.make_exc('SystemExit', a))


def _isqrt(I_, a, k):
    x = iv(a[0])
    I_.prove('isqrt of a non-negative number', x >= 0)
    r = I_.fresh('isq')
    I_.add(r >= 0, r * r <= x, x < (r + 1) * (r + 1))
    return r


class CmpKey:
    def __init__(self, f):
        self.f = f
