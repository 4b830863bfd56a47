"""Contract framework: sidecar specifications on the functions of /repo, and lemmas over them."""
import time, traceback
import z3
import interp
from interp import *
from core import *
import lemmas as L

CONTRACTS = {}
UNITS = {}          # name -> Unit
PROPS = {}          # property id -> [unit names]


class Contract:
    """specification of one function.  Subclasses give

    args(I)            symbolic arguments (dict), with the precondition assumed
    pre(I, a)          -> [(name, formula)]   precondition (assumed on entry, an obligation at every call)
    post(I, a, r)      -> [(name, formula[, hints])]  postcondition (an obligation on return, assumed after a call)
    modifies / result  at_call(I, a): what a caller may rely on
    """
    key = None
    loops = None
    props = ()

    def args(self, I):
        raise NotImplementedError

    def pre(self, I, a):
        return []

    def post(self, I, a, r):
        return []

    def snapshot(self, I, a):
        return None

    def on_raise(self, I, a, exc, old):
        I.prove(f'no exception ({exc.cls.name})', False)

    def on_return(self, I, a, r, old):
        for t in self.post(I, a, r):
            I.prove('post: ' + t[0], t[1], t[2] if len(t) > 2 else ())

    def on_yield(self, I, a, v, old):
        raise Unsupported('a generator, where a function that returns is specified')

    def result(self, I, a):
        raise Unsupported(f'{self.key}: no call rule')

    def at_call(self, I, a):
        for t in self.pre(I, a):
            I.prove(f'precondition of {self.key}: {t[0]}', t[1], t[2] if len(t) > 2 else ())
        r = self.result(I, a)
        for t in self.post(I, a, r):
            I.add(t[1])
        return r

    # ---- proving the function against the contract
    def check(self, I):
        fn = I.get(self.key)
        pre_args = []
        if isinstance(fn, ClassM):
            if not fn.static:
                pre_args = [I.get(self.key.rsplit('.', 1)[0])]
            fn = fn.fn
        if not isinstance(fn, UserFunc):
            raise Unsupported(f'{self.key} is not a function')
        if fn.key is None:
            fn.key = self.key
        I.verifying = self.key
        self.exits = 0

        def body():
            I.loop_specs = self.loops() if callable(self.loops) else self.loops
            a = self.args(I)
            for t in self.pre(I, a):
                I.add(t[1])
            old = self.snapshot(I, a)
            names = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
            pos = pre_args + list(a.values())
            if len(names) < len(pos):
                raise Unsupported(f'{self.key}: signature changed')
            # positional, in the order of the contract
            args, kw = pos, {}
            try:
                if I.gen_is(fn):
                    I.run_gen(GenObj(fn, args, kw), lambda v: self.on_yield(I, a, v, old))
                    r = None
                else:
                    r = I.exec_call_body(fn, args, kw)
            except PyRaise as e:
                self.on_raise(I, a, e.exc, old)
                self.cover(I)
                return
            self.on_return(I, a, r, old)
            self.cover(I)
        I.explore(self.key, body)

    def cover(self, I):
        """the end of this path must not be contradictory (at least one path per function)"""
        I.exits.append(list(I.assume))


def prove_all(I, name, f, hints=lambda *v: (), n=1, pat=None):
    """f(v..) for fresh v.. is an obligation; afterwards it may be used for all integers"""
    vs = [I.fresh('all') for _ in range(n)]
    I.prove(name, f(*vs), hints(*vs))
    g = FA(f, n, pat)
    I.add(g)
    return g


def assume_all(I, f, n=1, pat=None):
    """an assumption for all integers; the returned function adds an instance of it"""
    I.add(FA(f, n, pat))

    def use(*vs):
        I.add(f(*[iv(v) for v in vs]))
    return use


def witness(I, name, f, hints=()):
    """there is an integer with f (an obligation): a constant for it"""
    I.prove(name, EX(f), hints)
    w = I.fresh('wit')
    I.add(f(w))
    return w


def name(I, t):
    """a fresh constant for a term"""
    c = I.fresh('nm')
    I.add(c == t)
    return c


def ground_apps(forms, prefix):
    """applications without bound variables of the symbols whose name starts with prefix"""
    out, seen, st = {}, set(), list(forms)
    gmemo = {}

    def ground(t):
        k = t.get_id()
        if k not in gmemo:
            gmemo[k] = (t, not z3.is_var(t) and not z3.is_quantifier(t) and all(ground(c) for c in t.children()))
        return gmemo[k][1]
    keep = []
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        keep.append(t)
        if z3.is_quantifier(t):
            st.append(t.body())
        elif z3.is_app(t):
            if t.decl().name().startswith(prefix) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and ground(t):
                out[t.sexpr()] = t
            st += t.children()
    return list(out.values())


def prefix_hints(I, name, goal):
    """partial sums of non-negative terms in an assert are not larger than the sums the context mentions"""
    if not name.startswith('assert'):
        return []
    out = []
    here = [t for t in all_apps([goal]) if t.decl().name() in REG.decl2sum]
    if not here:
        return []
    ctx = [t for t in all_apps([f for f in I.assume if is_z(f)]) if t.decl().name() in REG.decl2sum]
    for t in here:
        s = REG.decl2sum[t.decl().name()]
        *p, k = t.children()
        for u in ctx:
            if u.decl().name() == t.decl().name() and not u.eq(t) and all(a.eq(b) for a, b in zip(u.children()[:-1], p)):
                n = u.children()[-1]
                out.append(z3.Implies(k <= n, z3.Or(L.premise_all(lambda i: s.at(p, i) >= 0, n), t <= u)))
                out.append(z3.Implies(z3.And(0 <= k, k + 1 <= n), z3.Or(L.premise_all(lambda i: s.at(p, i) >= 0, n), t + s.at(p, k) <= u)))
    return out


def all_apps(forms):
    """ground applications of uninterpreted symbols"""
    return ground_apps(forms, '')


def cnt_at(I, j, forms=()):
    """positions of index j in the enumerations that the context mentions"""
    out = {}
    for t in ground_apps([f for f in I.assume if is_z(f)] + list(forms), 'CNT_'):
        x = t.decl()(*t.children()[:-1], iv(j))
        out[x.sexpr()] = x
    for t in ground_apps([f for f in I.assume if is_z(f)] + list(forms), 'AT_'):
        s = REG.decl2mask[t.decl().name()] if t.decl().name() in REG.decl2mask else None
        if s is not None:
            x = s.cnt(*t.children()[:-1], iv(j))
            out[x.sexpr()] = x
    return list(out.values())


class LoopSpec:
    """invariant of one loop: override start/havoc/inv.  strict: everything the body changes must be in frame() or names"""
    strict = False
    names = ()

    def accepts(self, st):
        return True

    def frame(self, I, env, s):
        return []

    def start(self, I, env, st, sq):
        return {}

    def inv(self, I, env, i, s):
        return []

    def havoc(self, I, env, s):
        pass

    def before_body(self, I, env, i, s):
        return None

    def after_body(self, I, env, i, s, snap):
        pass

    def after_break(self, I, env, i, s):
        raise Unsupported('break in a specified loop')

    def after(self, I, env, i, s):
        pass


class Unit:
    def __init__(self, name, run, kind):
        self.name, self.run, self.kind = name, run, kind
        self.props = set()


def contract(*props):
    def deco(cls):
        c = cls()
        CONTRACTS[c.key] = c
        u = Unit(c.key, lambda I: c.check(I), 'function')
        UNITS[c.key] = u
        c.props = props
        for p in props:
            PROPS.setdefault(p, []).append(c.key)
        return cls
    return deco


def variant(key_name, *props):
    """a second specification of a function (not used at calls)"""
    def deco(cls):
        c = cls()
        u = Unit(key_name, lambda I: c.check(I), 'function')
        UNITS[key_name] = u
        for p in props:
            PROPS.setdefault(p, []).append(key_name)
        return cls
    return deco


def lemma(name, *props):
    """a function f(I) that emits obligations through I.prove (pure mathematics, or driving real code)"""
    def deco(f):
        def run(I):
            def body():
                f(I)
                I.exits.append(list(I.assume))
            I.explore(name, body)
        UNITS[name] = Unit(name, run, 'lemma')
        for p in props:
            PROPS.setdefault(p, []).append(name)
        return f
    return deco


def uses(pid, *names):
    PROPS.setdefault(pid, []).extend(names)


def generate(name):
    """-> (interp, error)"""
    I = Interp(CONTRACTS)
    I.exits = []
    u = UNITS[name]
    err = None
    try:
        u.run(I)
    except Unsupported as e:
        err = f'outside the verified subset: {e}'
    except RecursionError:
        err = 'outside the verified subset: recursion depth'
    except (AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError, z3.Z3Exception, NotImplementedError, StopIteration) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        err = f'outside the verified subset: {type(e).__name__}: {e} ({tb.filename.rsplit("/", 1)[-1]}:{tb.lineno})'
    except (ReturnEx, BreakEx, ContinueEx, GenBreak, PyRaise) as e:
        err = f'outside the verified subset: stray {type(e).__name__}'
    return I, err
