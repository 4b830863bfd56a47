"""Terms, summation/enumeration symbols and the lemma library.

All integers are mathematical (z3 Int).  A sum  SUM(f, n) = f(0)+...+f(n-1)  is represented first order: the
summand is closure-converted, i.e. its maximal subterms that do not mention the summation index become parameters,
and  S_key(params, n)  is an uninterpreted function whose meaning is fixed by recursion on n.  CNT/AT do the same for
"how many i < n satisfy the mask" and "the j-th index satisfying the mask" (np.where, boolean indexing, np.delete ...).
"""
import z3

I = z3.IntSort()
Z = I
BOOL = z3.BoolSort()


class Unsupported(Exception):
    """The code is outside the subset the engine understands (never reported as a violation)."""


def is_z(x):
    return isinstance(x, z3.ExprRef)


def iv(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if is_z(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def bv(x):
    """truth value as z3 Bool or python bool"""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x != 0
    if is_z(x):
        if z3.is_bool(x):
            return x
        return x != 0
    raise Unsupported(f'truth value of {type(x).__name__}')


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def simp(x):
    return z3.simplify(x) if is_z(x) else x


def conc(x):
    """python int if x is a numeral, else None"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if is_z(x):
        if z3.is_int_value(x):
            return x.as_long()
        s = z3.simplify(x)
        if z3.is_int_value(s):
            return s.as_long()
    return None


def norm(x):
    """fold numerals to python ints and constant booleans to python bools"""
    if is_z(x):
        s = z3.simplify(x)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
    return x


def ite(c, a, b):
    c = norm(c) if is_z(c) else c
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (bool,)) or (is_z(a) and z3.is_bool(a)):
        if isinstance(b, bool) or (is_z(b) and z3.is_bool(b)):
            return z3.If(c, zb(a), zb(b))
    if is_z(a) and z3.is_real(a) or is_z(b) and z3.is_real(b):
        return z3.If(c, a, b)
    return z3.If(c, iv(a), iv(b))


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True:
            continue
        if x is False:
            return z3.BoolVal(False)
        ys.append(x)
    if not ys:
        return z3.BoolVal(True)
    return z3.And(*ys) if len(ys) > 1 else ys[0]


def Or(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return z3.BoolVal(True)
        ys.append(x)
    if not ys:
        return z3.BoolVal(False)
    return z3.Or(*ys) if len(ys) > 1 else ys[0]


def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def Implies(a, b):
    if a is True:
        return zb(b)
    if a is False or b is True:
        return z3.BoolVal(True)
    return z3.Implies(zb(a), zb(b))


def Eq(a, b):
    if is_z(a) and z3.is_bool(a) or is_z(b) and z3.is_bool(b):
        if isinstance(a, bool) or isinstance(b, bool) or (is_z(a) and z3.is_bool(a) and is_z(b) and z3.is_bool(b)):
            return zb(a) == zb(b)
    return iv(a) == iv(b)


_qn = [0]


def fresh_int(p='q'):
    _qn[0] += 1
    return z3.Int(f'{p}!{_qn[0]}')


def pattern_ok(t):
    """an uninterpreted application without conditionals or connectives inside"""
    if not is_z(t) or not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED or t.num_args() == 0:
        return False
    st = list(t.children())
    while st:
        x = st.pop()
        if not z3.is_app(x) or z3.is_bool(x) or x.decl().kind() == z3.Z3_OP_ITE:
            return False
        st += x.children()
    return True


def FA(f, n=1, pat=None):
    """ForAll over n ints; f(*vars) -> formula.  pat(*vars) -> list of pattern terms"""
    vs = [fresh_int('q') for _ in range(n)]
    body = f(*vs)
    if body is True:
        return z3.BoolVal(True)
    if body is False:
        return z3.BoolVal(False)
    if pat is not None:
        p = pat(*vs)
        if not p or not all(pattern_ok(t) for t in p):
            return z3.ForAll(vs, body)
        try:
            return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0]])
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


def EX(f, n=1):
    vs = [fresh_int('e') for _ in range(n)]
    body = f(*vs)
    if isinstance(body, bool):
        return z3.BoolVal(body)
    return z3.Exists(vs, body)


def rng(i, n, lo=0):
    return And(iv(lo) <= i, i < iv(n))


def FAr(n, f):
    """for all 0 <= i < n: f(i)"""
    return FA(lambda i: Implies(rng(i, n), f(i)))


def FArr(n, m, f):
    return FA(lambda i, j: Implies(And(rng(i, n), rng(j, m)), f(i, j)), 2)


def EXr(n, f):
    return EX(lambda i: And(rng(i, n), f(i)))


# ---------------------------------------------------------------------------------------------------------------
# closure conversion

_JI = z3.Int('_J')


class _Reg:
    def __init__(self):
        self.sums = {}
        self.masks = {}
        self.decl2sum = {}
        self.decl2mask = {}

REG = _Reg()


def reset_registry():
    REG.__init__()


_cc_cache = {}


def _contains(t, v, memo):
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_quantifier(t):
        raise Unsupported('quantifier below a sum')
    r = t.eq(v) or any(_contains(c, v, memo) for c in t.children())
    memo[k] = (t, r)      # keeping t alive: ids are reused
    return r


def branchy(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE or (z3.is_bool(x) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED):
            return True
        st += x.children()
    return False


def closure_convert(body, J, deep=False):
    """-> (body with parameters P0.., list of parameter terms, key); deep: parameters without conditionals (usable in patterns)"""
    memo = {}
    params, pmap = [], {}

    def par(t):
        k = t.get_id()
        if k not in pmap:
            p = z3.Const(f'_P{len(params)}', t.sort())
            pmap[k] = p
            params.append(t)      # keeps t alive
        return pmap[k]

    def go(t):
        if z3.is_int_value(t) or z3.is_true(t) or z3.is_false(t) or z3.is_rational_value(t):
            return t
        if t.eq(J):
            return t
        if not _contains(t, J, memo) and not (deep and branchy(t)):
            return par(t)
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:      # numerals too: f(0, J) and f(r, J) are the same family
            ch = [go(c) if _contains(c, J, memo) or deep and branchy(c) else par(c) for c in t.children()]
        else:
            ch = [go(c) for c in t.children()]
        return t.decl()(*ch) if not (z3.is_add(t) or z3.is_mul(t) or z3.is_and(t) or z3.is_or(t)) else _rebuild(t, ch)
    b = go(body)
    return b, params, b.sexpr() + '|' + ','.join(str(p.sort()) for p in params)


def _rebuild(t, ch):
    if z3.is_add(t):
        return z3.Sum(ch)
    if z3.is_mul(t):
        return z3.Product(ch)
    if z3.is_and(t):
        return z3.And(*ch)
    return z3.Or(*ch)


class SumSym:
    def __init__(self, name, body, sorts):
        self.name, self.body, self.sorts = name, body, sorts
        self.fn = z3.Function(name, *sorts, I, I)

    def at(self, params, j):
        subs = [(z3.Const(f'_P{i}', s), p) for i, (s, p) in enumerate(zip(self.sorts, params))] + [(_JI, iv(j))]
        return z3.substitute(self.body, *subs)

    def app(self, params, n):
        return self.fn(*params, iv(n))


class MaskSym:
    def __init__(self, name, body, sorts):
        self.name, self.body, self.sorts = name, body, sorts
        self.cnt = z3.Function('CNT_' + name, *sorts, I, I)
        self.at_ = z3.Function('AT_' + name, *sorts, I, I)

    def mask(self, params, j):
        subs = [(z3.Const(f'_P{i}', s), p) for i, (s, p) in enumerate(zip(self.sorts, params))] + [(_JI, iv(j))]
        return z3.substitute(self.body, *subs)


MAXTERMS = 160


def _mulp(p, q):
    if len(p) * len(q) > 4 * MAXTERMS:
        raise OverflowError
    return _merge([(_mulc(c1, c2), _mon(a1 + a2)) for c1, a1 in p for c2, a2 in q])


def _merge(ts):
    acc, order = {}, []
    for c, a in ts:
        key = tuple(x.sexpr() for x in a)
        if key in acc:
            o = acc[key][0]
            acc[key] = (o + c if isinstance(o, int) and isinstance(c, int) else iv(o) + iv(c), a)
        else:
            acc[key] = (c, a)
    out = [(c, a) for c, a in acc.values() if not (isinstance(c, int) and c == 0)]
    if len(out) > MAXTERMS:
        raise OverflowError
    return out


def _mulc(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return iv(a) * iv(b)


def _mon(atoms):
    seen, out = set(), []
    for a in atoms:
        if z3.is_bool(a):
            if a.sexpr() in seen:
                continue
            seen.add(a.sexpr())
        out.append(a)
    return tuple(sorted(out, key=lambda t: (z3.is_bool(t) is False, t.sexpr())))


def _poly_bool(t, J, memo):
    if z3.is_true(t):
        return [(1, ())]
    if z3.is_false(t):
        return []
    if not _contains(t, J, memo):
        return [(z3.If(t, z3.IntVal(1), z3.IntVal(0)), ())]
    if z3.is_not(t):
        return [(1, ())] + [(_mulc(-1, c), a) for c, a in _poly_bool(t.arg(0), J, memo)]
    if z3.is_and(t):
        p = [(1, ())]
        for ch in t.children():
            p = _mulp(p, _poly_bool(ch, J, memo))
        return p
    if z3.is_or(t):
        return _poly_bool(z3.Not(z3.And(*[z3.Not(c) for c in t.children()])), J, memo)
    if z3.is_implies(t):
        return _poly_bool(z3.Or(z3.Not(t.arg(0)), t.arg(1)), J, memo)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return _poly_bool(z3.Or(z3.And(t.arg(0), t.arg(1)), z3.And(z3.Not(t.arg(0)), t.arg(2))), J, memo)
    if z3.is_eq(t) and z3.is_bool(t.arg(0)):
        a, b = t.children()
        return _poly_bool(z3.Or(z3.And(a, b), z3.And(z3.Not(a), z3.Not(b))), J, memo)
    if z3.is_app(t):
        k = t.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_GE) and z3.is_int(t.arg(0)):
            a, b = t.children()
            if k == z3.Z3_OP_GE:
                return _ind_ge(a, b, J)
            if k == z3.Z3_OP_LE:
                return _ind_ge(b, a, J)
            if k == z3.Z3_OP_GT:
                return _ind_ge(a, b + 1, J)
            return _ind_ge(b, a + 1, J)
        if k == z3.Z3_OP_EQ and z3.is_int(t.arg(0)):
            return _ind_eq(t.arg(0), t.arg(1), J)
    return [(1, (t,))]


def mk_ge(a, b):
    return z3.BoolRef(z3.Z3_mk_ge(a.ctx_ref(), a.as_ast(), b.as_ast()), a.ctx)


def mk_eq(a, b):
    return z3.BoolRef(z3.Z3_mk_eq(a.ctx_ref(), a.as_ast(), b.as_ast()), a.ctx)


def _lin(t, J):
    """t = c*J + rest with c in {1,-1} -> (c, rest), else None"""
    t = z3.simplify(t)
    terms = t.children() if z3.is_add(t) else [t]
    c, rest = 0, []
    for x in terms:
        if x.eq(J):
            c += 1
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)) and x.arg(1).eq(J):
            c += x.arg(0).as_long()
        elif _contains(x, J, {}):
            return None
        else:
            rest.append(x)
    if c not in (1, -1):
        return None
    return c, (z3.simplify(z3.Sum(rest)) if rest else z3.IntVal(0))


def _ind_ge(a, b, J):
    """the 0/1 polynomial of a >= b"""
    l = _lin(a - b, J)
    if l is None:
        return [(1, (z3.simplify(a >= b),))]
    c, rest = l
    if c == 1:
        return [(1, (mk_ge(J, z3.simplify(-rest)),))]
    return [(1, ()), (-1, (mk_ge(J, z3.simplify(rest + 1)),))]


def _ind_eq(a, b, J):
    l = _lin(a - b, J)
    if l is None:
        s = z3.simplify(a == b)
        return [(1, (s,))]
    c, rest = l
    return [(1, (mk_eq(J, z3.simplify(-rest if c == 1 else rest)),))]


def _poly(t, J, memo, light=False):
    if z3.is_int_value(t):
        c = t.as_long()
        return [(c, ())] if c else []
    if not _contains(t, J, memo):
        return [(t, ())]
    if z3.is_add(t):
        out = []
        for ch in t.children():
            out += _poly(ch, J, memo, light)
        return _merge(out)
    if z3.is_sub(t):
        ch = t.children()
        out = _poly(ch[0], J, memo, light)
        for c in ch[1:]:
            out = out + [(_mulc(-1, k), a) for k, a in _poly(c, J, memo, light)]
        return out
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
        return [(_mulc(-1, k), a) for k, a in _poly(t.arg(0), J, memo, light)]
    if z3.is_mul(t):
        p = [(1, ())]
        for ch in t.children():
            p = _mulp(p, _poly(ch, J, memo, light))
        return p
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c = _poly_bool(t.arg(0), J, memo)
        if light and not all(not m or any(_is_eq_J(x) for x in m) for _, m in c):
            return [(1, (t,))]
        a, b = _poly(t.arg(1), J, memo, light), _poly(t.arg(2), J, memo, light)
        return _merge(_mulp(c, a) + b + [(_mulc(-1, k), m) for k, m in _mulp(c, b)])
    return [(1, (t,))]


def _has_ite(t, memo):
    return z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_ITE or any(_has_ite(c, memo) for c in t.children()))


def _nice(atoms):
    """closed form, or no condition at all"""
    return all(_is_ge_J(a) for a in atoms) or any(_is_eq_J(a) for a in atoms) or not any(z3.is_bool(a) or _has_ite(a, None) for a in atoms)


def _poly2(t, J):
    """points and plain sums are split off; ranges only where that gives a closed form"""
    memo = {}
    out = []
    for c, atoms in _poly(t, J, memo, light=True):
        if _nice(atoms):
            out.append((c, atoms))
            continue
        try:
            full = [(1, ())]
            for a in atoms:
                full = _mulp(full, _poly_bool(a, J, memo) if z3.is_bool(a) else _poly(a, J, memo))
        except OverflowError:
            full = None
        if full is not None and all(_nice(m) for _, m in full):
            out += [(_mulc(c, c2), m) for c2, m in full]
        else:
            out.append((c, atoms))
    return _merge(out)


def _sumsym_of(body):
    b, params, key = closure_convert(body, _JI)
    s = REG.sums.get(key)
    if s is None:
        s = SumSym(f'S{len(REG.sums)}', b, [p.sort() for p in params])
        REG.sums[key] = s
        REG.decl2sum[s.name] = s
    return s, params


def _is_ge_J(a):
    return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_GE and a.arg(0).eq(_JI) and not _contains(a.arg(1), _JI, {})


def _is_eq_J(a):
    return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_EQ and a.arg(0).eq(_JI) and not _contains(a.arg(1), _JI, {})


def zmax(a, b):
    return z3.If(a >= b, a, b)


def _mono_sum(atoms, n):
    """sum over 0 <= J < n of the product of the atoms"""
    for a in atoms:
        if _is_eq_J(a):
            e = a.arg(1)
            val = z3.IntVal(1)
            conds = [e >= 0, e < n]
            for o in atoms:
                if o is a:
                    continue
                o2 = z3.substitute(o, (_JI, e))
                if z3.is_bool(o2):
                    conds.append(o2)
                else:
                    val = val * o2
            return z3.simplify(z3.If(z3.And(*conds), val, z3.IntVal(0)))
    if all(_is_ge_J(a) for a in atoms):
        lo = z3.IntVal(0)
        for a in atoms:
            lo = zmax(lo, a.arg(1))
        return z3.simplify(zmax(n - lo, z3.IntVal(0)))
    bs = [a for a in atoms if z3.is_bool(a)]
    vs = [a for a in atoms if not z3.is_bool(a)]
    val = z3.IntVal(1) if not vs else (vs[0] if len(vs) == 1 else z3.Product(vs))
    if bs:
        val = z3.If(z3.And(*bs) if len(bs) > 1 else bs[0], val, z3.IntVal(0))
    s, params = _sumsym_of(val)
    return s.app(params, n)


def SUM(f, n):
    """f(0) + ... + f(n-1)  (0 for n <= 0)"""
    c = conc(n)
    if c is not None and c <= 0:
        return z3.IntVal(0)
    n = z3.simplify(iv(n))
    body = z3.simplify(iv(f(_JI)))
    return _sum_cases(body, n, 3)


def _free_cond(t, memo):
    """a condition of an if-then-else in t that does not mention the index"""
    seen = set()
    stack = [t]
    keep = []
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        keep.append(x)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            cs = [x.arg(0)]
            while cs:
                c = cs.pop()
                if not _contains(c, _JI, memo):
                    if not (z3.is_true(c) or z3.is_false(c)):
                        return c
                elif z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
                    cs += c.children()
        if z3.is_app(x) and _contains(x, _JI, memo):
            stack.extend(x.children())
    return None


def _sum_cases(body, n, depth):
    if depth:
        c = _free_cond(body, {})
        if c is not None:
            a = z3.simplify(z3.substitute(body, (c, z3.BoolVal(True))))
            b = z3.simplify(z3.substitute(body, (c, z3.BoolVal(False))))
            return z3.If(c, _sum_cases(a, n, depth - 1), _sum_cases(b, n, depth - 1))
    return _sum_plain(body, n)


def _sum_plain(body, n):
    body = z3.simplify(body)
    try:
        poly = _poly2(body, _JI)
    except OverflowError:
        s, params = _sumsym_of(body)
        return s.app(params, n)
    acc = {}
    for cf, atoms in poly:
        key = tuple(a.sexpr() for a in atoms)
        if key in acc:
            acc[key] = (iv(acc[key][0]) + iv(cf), atoms)
        else:
            acc[key] = (cf, atoms)
    out = []
    for cf, atoms in acc.values():
        cf = z3.simplify(iv(cf))
        if z3.is_int_value(cf) and cf.as_long() == 0:
            continue
        out.append(cf * _mono_sum(atoms, n))
    if not out:
        return z3.IntVal(0)
    return z3.simplify(z3.Sum(out)) if len(out) > 1 else z3.simplify(out[0])


def canon(t):
    """order the arguments of =, and, or (boolean structure only)"""
    if z3.is_eq(t):
        a, b = t.arg(0), t.arg(1)
        if z3.is_bool(a):
            a, b = canon(a), canon(b)
        return a == b if a.sexpr() <= b.sexpr() else b == a
    if z3.is_and(t) or z3.is_or(t):
        cs = sorted((canon(c) for c in t.children()), key=lambda c: c.sexpr())
        return z3.And(*cs) if z3.is_and(t) else z3.Or(*cs)
    if z3.is_not(t):
        return z3.Not(canon(t.arg(0)))
    return t


def masksym(m):
    body = canon(z3.simplify(zb(m(_JI))))
    b, params, key = closure_convert(body, _JI, deep=True)
    s = REG.masks.get(key)
    if s is None:
        s = MaskSym(f'M{len(REG.masks)}', b, [p.sort() for p in params])
        REG.masks[key] = s
        REG.decl2mask['CNT_' + s.name] = s
        REG.decl2mask['AT_' + s.name] = s
    return s, params


class Enum:
    """the indices i >= 0 with mask(i), in increasing order"""

    def __init__(self, mask):
        self.sym, self.params = masksym(mask)
        self.mask = mask

    def cnt(self, n):
        c = conc(n)
        if c is not None and c <= 0:
            return z3.IntVal(0)
        return self.sym.cnt(*self.params, iv(n))

    def at(self, j):
        return self.sym.at_(*self.params, iv(j))

    def m(self, j):
        return self.sym.mask(self.params, j)


# ---------------------------------------------------------------------------------------------------------------
# uninterpreted helpers with recursive meaning: powers of two, bits, bitwise and

POW2 = z3.Function('POW2', I, I)
BIT = z3.Function('BIT', I, I, I)          # BIT(k, s): bit s of k >= 0
SHR = z3.Function('SHR', I, I, I)          # SHR(k, s): k >> s for k >= 0
BAND = z3.Function('BAND', I, I, I)        # bitwise and of non-negative integers
BLEN = z3.Function('BLEN', I, I)           # number of binary digits of k >= 0 (0 for 0)


# ---------------------------------------------------------------------------------------------------------------
# renaming / lifting of the symbols created in one generic iteration (also inside the bodies of SUM / CNT symbols)

def body_of(name):
    s = REG.decl2sum.get(name)
    if s is not None:
        return s.body
    m = REG.decl2mask.get(name)
    return m.body if m is not None else None


def app_names(t, out=None, deep=True):
    """names of the uninterpreted symbols of t, bodies of SUM / CNT / AT symbols included: name -> decl"""
    out = {} if out is None else out
    seen, stack = set(), [t]
    keep = []
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        keep.append(x)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if n not in out:
                    out[n] = d
                    if deep:
                        b = body_of(n)
                        if b is not None:
                            stack.append(b)
            stack.extend(x.children())
    return out


def sym_number(name):
    if '!' not in name or name.startswith(('q!', 'e!', 'w!', 'j!')):
        return -1
    try:
        return int(name.rsplit('!', 1)[1].split('^')[0].rstrip("'"))
    except ValueError:
        return -1


class Lifter:
    """want(name): is the symbol to be replaced; its replacement is called newname(name) and takes g as first argument
    when lifting (g given), or the same arguments (renaming)"""

    def __init__(self, want, newname, g=None):
        self.want, self.newname, self.g = want, newname, g
        self.decls = {}          # name -> (old, new)
        self.plain = set()       # names known to be unaffected
        self.syms = {}           # SUM/CNT/AT name -> (old decl, new decl)

    def learn(self, t):
        for n, d in app_names(t, deep=False).items():
            if n in self.decls or n in self.plain or n in self.syms:
                continue
            b = body_of(n)
            if b is not None:
                self.learn(b)
                inner = app_names(b, deep=False)
                if any(x in self.decls or x in self.syms for x in inner):
                    self.new_sym(n, d)
                else:
                    self.plain.add(n)
            elif self.want(n):
                dom = [d.domain(i) for i in range(d.arity())]
                if self.g is not None:
                    dom = [I] + dom
                self.decls[n] = (d, z3.Function(self.newname(n), *dom, d.range()))
            else:
                self.plain.add(n)

    def new_sym(self, n, d):
        s = REG.decl2sum.get(n)
        mask = s is None
        if mask:
            s = REG.decl2mask[n]
        k = len(s.sorts)
        G = z3.Const(f'_P{k}', I) if self.g is not None else None
        b = self.apply(s.body, G)
        sorts = list(s.sorts) + ([I] if self.g is not None else [])
        key = b.sexpr() + '|' + ','.join(str(x) for x in sorts)
        if mask:
            t = REG.masks.get(key)
            if t is None:
                t = MaskSym(f'M{len(REG.masks)}', b, sorts)
                REG.masks[key] = t
                REG.decl2mask['CNT_' + t.name] = t
                REG.decl2mask['AT_' + t.name] = t
            self.syms['CNT_' + s.name] = (s.cnt, t.cnt)
            self.syms['AT_' + s.name] = (s.at_, t.at_)
        else:
            t = REG.sums.get(key)
            if t is None:
                t = SumSym(f'S{len(REG.sums)}', b, sorts)
                REG.sums[key] = t
                REG.decl2sum[t.name] = t
            self.syms[n] = (s.fn, t.fn)

    def apply(self, t, G):
        consts, funs = [], []
        lead = [] if self.g is None else [G]
        for n, (d, d2) in self.decls.items():
            if d.arity() == 0:
                consts.append((d(), d2(*lead)))
            else:
                funs.append((d, d2(*lead, *[z3.Var(i, d.domain(i)) for i in range(d.arity())])))
        for n, (d, d2) in self.syms.items():
            vs = [z3.Var(i, d.domain(i)) for i in range(d.arity())]
            funs.append((d, d2(*vs[:-1], *lead, vs[-1])))
        if funs:
            t = z3.substitute_funs(t, *funs)
        if consts:
            t = z3.substitute(t, *consts)
        return t

    def __call__(self, t, i=None):
        if not is_z(t):
            return t
        self.learn(t)
        t = self.apply(t, self.g)
        if self.g is not None and i is not None:
            t = z3.substitute(t, (self.g, iv(i)))
        return t
