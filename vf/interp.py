"""Symbolic interpreter for the Python of /repo: executes the real AST of a function, path by path, generating proof
obligations (asserts, index bounds, shapes, frames, callee preconditions, loop invariants, postconditions)."""
import ast, os
import z3
from core import *
import lemmas as L

REPO = os.environ.get('VF_REPO', '/repo')


# ------------------------------------------------------------------------------------------------ control flow
class PathEnd(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class GenBreak(Exception):
    def __init__(self, tag):
        self.tag = tag


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


# ------------------------------------------------------------------------------------------------ values
class Val:
    prot = None


class UserFunc(Val):
    def __init__(self, node, env, module, name, cls=None):
        self.node, self.env, self.module, self.name, self.cls = node, env, module, name, cls
        self.key = None
        self.attrs = {}
        self.is_gen = None

    def __repr__(self):
        return f'<fn {self.key or self.name}>'


class Bound(Val):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Builtin(Val):
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f'<builtin {self.name}>'


class Prop(Val):
    def __init__(self, get, set_=None):
        self.get, self.set_ = get, set_


class ClassM(Val):
    def __init__(self, fn, static=False):
        self.fn, self.static = fn, static


class UserClass(Val):
    def __init__(self, name, ns, bases, module):
        self.name, self.ns, self.bases, self.module = name, ns, bases, module

    def find(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            r = b.find(n) if isinstance(b, UserClass) else None
            if r is not None:
                return r
        return None

    def isa(self, other):
        return self is other or any(isinstance(b, UserClass) and b.isa(other) or b is other for b in self.bases)

    def __repr__(self):
        return f'<class {self.name}>'


class ExcClass(Val):
    """builtin exception class"""

    def __init__(self, name, parent=None):
        self.name, self.parent = name, parent

    def isa(self, other):
        return self is other or (self.parent is not None and self.parent.isa(other))

    def find(self, n):
        return None


class Obj(Val):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        PyList._n += 1
        self.no = PyList._n

    def __repr__(self):
        return f'<{self.cls.name} obj>'


class Module(Val):
    def __init__(self, name):
        self.name = name
        self.env = {}

    def __repr__(self):
        return f'<module {self.name}>'


class NS(Val):
    """a namespace of builtins (numpy, heapq, ...)"""

    def __init__(self, name, d):
        self.name, self.d = name, d


class PartialV(Val):
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Opaque(Val):
    """a value the proof does not look into (exception messages, docstrings, printed text)"""

    def __init__(self, what='opaque'):
        self.what = what


class RangeV(Val):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class NTClass(Val):
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class NTVal(Val):
    def __init__(self, cls, vals):
        self.cls, self.vals = cls, list(vals)


class GenObj(Val):
    """generator call not yet consumed"""

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Seq(Val):
    """immutable sequence of symbolic length: len (term), at(i) -> value"""

    it = None       # an It record when this is an iterator of the program (one-shot, evaluated when it is consumed)

    def __init__(self, n, at, tag=None):
        self.n, self.at = n, at
        self.tag = tag or {}


class It:
    """an iterator: the engine evaluates it as if at its creation, so a second use, or a change of anything it reads
    between creation and use, is not supported"""

    def __init__(self, sq, mark, deps, names):
        self.sq, self.mark, self.deps, self.names = sq, mark, deps, names
        self.used = False


class PyList(Val):
    """mutable list: items (concrete python list) or seq (symbolic)"""

    _n = 0

    def __init__(self, items=None, seq=None):
        self.items, self.seq = items, seq
        PyList._n += 1
        self.no = PyList._n

    def is_conc(self):
        return self.items is not None


class PyDict(Val):
    def __init__(self, items=None, default=None):
        self.items = dict(items or {})
        self.default = default
        self.order = list(self.items)
        self.sym = None


class PySet(Val):
    def __init__(self, seq):
        self.seq = seq


class Slice(Val):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Store:
    _n = 0

    def __init__(self, shape, fn, prot=None):
        self.shape, self.fn, self.prot = tuple(shape), fn, prot
        Store._n += 1
        self.id = Store._n
        self.writes = 0


class Arr(Val):
    """numpy array (possibly a view): dtype kind is carried by the terms"""

    def __init__(self, shape, fn=None, store=None, map=None, inv=None, dt='int', tag=None):
        self.shape = tuple(norm(s) for s in shape)
        self.dt = dt
        self.tag = tag or {}
        if store is None:
            store = Store(self.shape, fn)
            map, inv = (lambda *ix: ix), (lambda *ix: (True, ix))
        self.store, self.map, self.inv = store, map, inv

    @property
    def ndim(self):
        return len(self.shape)

    def snap(self):
        fn, mp = self.store.fn, self.map
        return lambda *ix: fn(*mp(*ix))

    def get(self, *ix):
        return self.store.fn(*self.map(*ix))


class Env:
    def __init__(self, parent=None, vars=None, glob=None):
        self.parent, self.vars, self.glob = parent, (vars if vars is not None else {}), glob
        self.nonlocal_ = set()
        self.order = []

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        return KeyError

    def set(self, n, v):
        e = self
        if n in self.nonlocal_:
            e = self.parent
            while e is not None and n not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported(f'nonlocal {n}')
        if n not in e.vars:
            e.order.append(n)
        e.vars[n] = v


class Obligation:
    def __init__(self, name, ctx, goal, fn):
        self.name, self.ctx, self.goal, self.fn = name, ctx, goal, fn
        self.status, self.time, self.by = None, 0, None


MUTATORS = {'append', 'appendleft', 'extend', 'insert', 'add', 'update', 'setdefault', 'pop', 'popleft', 'popitem', 'clear', 'remove',
            'discard', 'sort', 'reverse', 'fill', 'put', 'resize', 'rotate', '__setitem__'}


def mutated_globals(tree):
    """module-level names that some function rebinds (global) or changes in place"""
    out = set()

    def root(x):
        while isinstance(x, (ast.Subscript, ast.Attribute)):
            x = x.value
        return x.id if isinstance(x, ast.Name) else None

    def visit(node, local):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                a = ch.args
                mine = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
                glob = set()
                for x in ast.walk(ch):
                    if isinstance(x, ast.Global):
                        glob |= set(x.names)
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        mine.add(x.id)
                out.update(glob)
                visit(ch, (local or set()) | (mine - glob))
                continue
            if local is not None:
                n = None
                if isinstance(ch, (ast.Subscript, ast.Attribute)) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                    n = root(ch)
                elif isinstance(ch, ast.Call) and isinstance(ch.func, ast.Attribute) and ch.func.attr in MUTATORS:
                    n = root(ch.func)
                if n is not None and n not in local:
                    out.add(n)
            visit(ch, local)
    visit(tree, None)
    return out


class Kw(dict):
    """keyword arguments of a modelled function: one that the model does not look at is not supported"""

    def __init__(self, d):
        dict.__init__(self, d)
        self.unread = set(d)

    def get(self, n, default=None):
        self.unread.discard(n)
        return dict.get(self, n, default)

    def __getitem__(self, n):
        self.unread.discard(n)
        return dict.__getitem__(self, n)

    def __contains__(self, n):
        self.unread.discard(n)
        return dict.__contains__(self, n)

    def items(self):
        self.unread.clear()
        return dict.items(self)


KWFREE = {'print', 'partial'}
NOT_FOUND = object()
LAZY = {'zip': 'shallow', 'enumerate': 'shallow', 'reversed': 'shallow', 'map': 'fn', 'filter': 'fn', 'chain': 'deep',
        'chain.from_iterable': 'deep', 'heapq.merge': 'deep', 'repeat': 'shallow'}
STORING = {'partial', 'append', 'appendleft', 'isinstance', 'callable', 'next', 'setdefault'}


# ------------------------------------------------------------------------------------------------ interpreter
def has_quantifier(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st += x.children()
    return False


class Interp:
    MAXPATHS = 400

    def __init__(self, contracts=None):
        self.contracts = contracts or {}
        self.modules = {}
        self.obls = []
        self.assume = []
        self.prefix = []
        self.pos = 0
        self.trace = []
        self.work = []
        self.verifying = None
        self.fnname = '?'
        self.calldepth = 0
        self.assume_mode = False
        self.yield_stack = []
        self.stmts_seen = set()
        self.used_contracts = set()
        self.inlined = set()
        self.builtin_used = set()
        self.loop_specs = None
        self.loopno = {}
        self.frames = []
        self.cur_line = None
        self.notes = {}
        self.path_solver = None
        self.watch = None
        self.depth_limit = 60
        self.symno = 0
        self.shared = {}
        self.reset_path()
        import npm
        self.npm = npm
        self.builtins = npm.make_builtins(self)
        self.ext_modules = npm.make_modules(self)

    def reset_path(self):
        self.generic = 0
        self.enums = []
        self.groupings, self.nonzeros, self.perms, self.printed, self.imports = [], [], [], [], []
        self.rec, self.rec_watch = None, set()
        self.local, self.journal, self.mute, self.mute_goals = None, None, 0, None
        self.loop_marks, self.loop_objs, self.forked, self.mute_keep = [], [], [], []
        self.loop_stack, self.scatters, self.sorted_by, self.flats = [], [], [], []
        self.popped, self.alls, self.filtered = [], {}, []
        self.deletions, self.deletions1, self.index_lists, self.hint_fn = [], [], [], None
        self.gen_stack = []
        self.ghost = {}
        self.points = []
        self.mut = []
        self.members = []

    # ---- undo journal (used while a loop body is probed)
    journal = None

    def log_store(self, st):
        self.changes(st)
        if self.journal is not None:
            old, wr = st.fn, st.writes

            def undo():
                st.fn, st.writes = old, wr
            self.journal.append((('store', st), undo))

    def log_list(self, l):
        self.changes(l)
        if self.journal is not None:
            old = (l.items, l.seq)

            def undo():
                l.items, l.seq = old
            self.journal.append((('list', l), undo))

    def log_dict(self, d):
        self.changes(d)
        if self.journal is not None:
            old = (dict(d.items), d.sym, d.default)

            def undo():
                d.items, d.sym, d.default = dict(old[0]), old[1], old[2]
            self.journal.append((('dict', d), undo))

    def log_attr(self, o, n):
        self.changes(o)
        if self.journal is not None:
            had, old = n in o.attrs, o.attrs.get(n)

            def undo():
                if had:
                    o.attrs[n] = old
                else:
                    o.attrs.pop(n, None)
            self.journal.append((('attr', o, n), undo))

    loading = 0

    def changes(self, o):
        self.mut.append(o)
        if id(o) in self.shared and not self.loading:
            raise Unsupported('the state of a module is changed')

    def share(self, m):
        """everything that a module holds: it outlives every call, so the functions under proof may read but not change it"""
        todo, seen = [v for v in m.env.values() if not isinstance(v, (Module, NS))], set()
        while todo:
            v = todo.pop()
            if id(v) in seen or v is None or isinstance(v, (int, str, bool, Builtin, BadDef)) or is_z(v):
                continue
            seen.add(id(v))
            if isinstance(v, Arr):
                self.shared[id(v.store)] = v.store
            elif isinstance(v, (tuple, list)):
                todo += list(v)
            elif isinstance(v, PyList):
                self.shared[id(v)] = v
                todo += v.items or []
            elif isinstance(v, PyDict):
                self.shared[id(v)] = v
                todo += list(v.items.values())
            elif isinstance(v, PySet):
                self.shared[id(v)] = v
            elif isinstance(v, UserFunc):
                todo += list(getattr(v, 'defaults', None) or []) + list(getattr(v, 'kwdefaults', None) or []) + list(v.attrs.values())
                e = v.env
                while e is not None and e.parent is not None and e.glob is None:      # the variables of a decorator
                    if id(e) not in seen:
                        seen.add(id(e))
                        todo += list(e.vars.values())
                    e = e.parent
            elif isinstance(v, UserClass):
                todo += list(v.ns.values())
            elif isinstance(v, ClassM):
                todo.append(v.fn)
            elif isinstance(v, Prop):
                todo += [v.get, v.set_]
            elif isinstance(v, (Bound, PartialV)):
                todo += [v.fn] + ([v.self_] if isinstance(v, Bound) else list(v.args) + list(v.kw.values()))
            elif isinstance(v, Obj):
                self.shared[id(v)] = v
                todo += list(v.attrs.values())

    # ---- iterators
    def roots(self, vals, deep):
        """the mutable objects that an iterator over vals reads: (objects, coarse); coarse: also objects that cannot be listed"""
        out, todo, seen, coarse = [], [(v, 0) for v in vals], set(), False
        while todo:
            v, d = todo.pop()
            if id(v) in seen or v is None or isinstance(v, (int, str, bool, Builtin, UserClass)) or is_z(v):
                continue
            seen.add(id(v))
            if isinstance(v, Arr):
                if deep or v.ndim == 1:
                    out.append(v.store)
            elif isinstance(v, (tuple, list)):
                todo += [(x, d) for x in v] if deep or isinstance(v, list) else []
            elif isinstance(v, PyList):
                out.append(v)
                if deep and v.is_conc():
                    todo += [(x, d) for x in v.items]
                elif deep:
                    coarse = coarse or not self.scalars(v.seq)
            elif isinstance(v, Seq):
                if v.it is not None:
                    out += v.it.deps[0]
                    coarse = coarse or v.it.deps[1]
                if deep and 'items' in v.tag:
                    todo += [(x, d) for x in v.tag['items']]
                elif deep and v.it is None:
                    coarse = coarse or not self.scalars(v)
            elif isinstance(v, PyDict):
                out.append(v)
                if deep:
                    coarse = True
            elif isinstance(v, (UserFunc, Bound, PartialV)):
                if isinstance(v, PartialV):
                    todo += [(x, d) for x in [v.fn] + v.args + list(v.kw.values())]
                elif isinstance(v, Bound):
                    todo += [(v.fn, d), (v.self_, d)]
                else:
                    todo += [(x, d) for _, _, x in self.free_values(v)]
            elif isinstance(v, Obj):
                out.append(v)
                todo += [(x, d) for x in v.attrs.values()] if deep else []
            elif isinstance(v, NTVal):
                todo += [(x, d) for x in v.vals] if deep else []
            elif isinstance(v, RangeV):
                pass
            elif deep:
                coarse = True
        return out, coarse

    def scalars(self, sq):
        try:
            return scalar(sq.at(z3.Int('_elem')))
        except Exception:
            return False

    def free_values(self, fn):
        """(env, name, value) of the local names that a nested function or lambda reads from the functions around it"""
        env = getattr(fn, 'env', None)
        if env is None or env.glob is not None or env.parent is None:
            return []
        bound = {a.arg for a in ast.walk(fn.node.args) if isinstance(a, ast.arg)}
        return self.local_names([fn.node], env, bound)

    def local_names(self, nodes, env, bound=()):
        out, seen = [], set(bound)
        for nd in nodes:
            for x in ast.walk(nd):
                if isinstance(x, ast.Name) and x.id not in seen:
                    seen.add(x.id)
                    e = env
                    while e is not None and x.id not in e.vars:
                        e = e.parent
                    if e is not None and e.parent is not None and e.glob is None:
                        out.append((e, x.id, e.vars[x.id]))
        return out

    def lazy(self, sq, deps, names=()):
        if getattr(self, 'no_lazy', False) or not isinstance(sq, Seq):
            return sq
        r = Seq(sq.n, sq.at, sq.tag)
        r.it = It(sq, self.mut_mark(), deps, list(names))
        return r

    def mut_mark(self):
        return len(self.mut), Store._n, PyList._n

    def stale(self, mark, deps, names=()):
        objs, coarse = deps
        for o in self.mut[mark[0]:]:
            if any(o is x for x in objs):
                raise Unsupported('an object is changed while an iterator reads it')
            if coarse and not (isinstance(o, Store) and o.id > mark[1] or isinstance(o, PyList) and o.no > mark[2]):
                raise Unsupported('an object is changed while an iterator over unknown objects is in use')
        for e, n, v in names:
            if e.vars.get(n, NOT_FOUND) is not v:
                raise Unsupported(f'{n} is rebound while an iterator reads it')

    def consume(self, v):
        """v is iterated over by the program"""
        it = getattr(v, 'it', None)
        if it is not None:
            if it.used:
                raise Unsupported('an iterator is used twice')
            it.used = True
            self.stale(it.mark, it.deps, it.names)
            return it.sq
        if isinstance(v, GenObj):
            if getattr(v, 'used', False):
                raise Unsupported('a generator is used twice')
            v.used = True
        return v

    def catching(self, name):
        return any(name in f.get('names', ()) for f in self.frames)

    # ---- fresh symbols: numbered per path so that a replayed prefix reproduces them
    def fresh(self, p='v', sort=I):
        self.symno += 1
        return z3.Const(f'{p}!{self.symno}', sort)

    def fresh_fn(self, p, *sorts):
        self.symno += 1
        return z3.Function(f'{p}!{self.symno}', *sorts)

    def fresh_arr(self, shape, p='a', dt='int'):
        f = self.fresh_fn(p, *([I] * len(shape)), BOOL if dt == 'bool' else I)
        return Arr(shape, lambda *ix: f(*[iv(i) for i in ix]), dt=dt)

    # ---- assumptions, decisions, obligations
    def add(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.add(*f)
                continue
            if f is True or (is_z(f) and z3.is_true(f)):
                continue
            if f is False:
                f = z3.BoolVal(False)
            self.assume.append(f)
            self.path_solver.add(f)

    def prove(self, name, goal, hints=()):
        if isinstance(goal, (list, tuple)):
            for i, g in enumerate(goal):
                self.prove(f'{name}.{i}', g, hints)
            return
        goal = zb(goal) if isinstance(goal, bool) else goal
        if self.assume_mode or self.mute:
            if self.mute:
                self.mute_goals.add(goal.get_id())
                self.mute_keep.append(goal)
            self.add(goal)
            return
        if self.hint_fn is not None and is_z(goal):
            hints = list(hints) + list(self.hint_fn(self, name, goal))
        if self.pos >= len(self.prefix) and (self.local is None or self.local.fresh()):          # a replayed prefix has emitted its obligations already
            line = f'@{self.cur_line}' if self.cur_line else ''
            self.obls.append(Obligation(f'{self.fnname}: {name}{line}', list(self.assume) + [h for h in hints], goal, self.fnname))
            self.obls[-1].points = list(self.points)
        self.add(goal)

    def derive(self, name, goal, facts, hints=()):
        """goal from the given facts (each of them an obligation of its own) and valid hints alone"""
        if self.assume_mode or self.mute:
            return self.prove(name, goal)
        for i, f in enumerate(facts):
            if any(is_z(x) and x.eq(f) for x in self.assume):
                continue
            self.prove(f'{name} (fact {i})', f)
        goal = zb(goal) if isinstance(goal, bool) else goal
        if self.pos >= len(self.prefix) and (self.local is None or self.local.fresh()):
            self.obls.append(Obligation(f'{self.fnname}: {name}@{self.cur_line}', list(facts) + list(hints), goal, self.fnname))
            self.obls[-1].points = list(self.points)
        self.add(goal)

    def entails(self, c, timeout=400):
        """cheap check: do the assumptions imply c?  (only used to simplify, never to discharge)"""
        c = norm(c)
        if isinstance(c, bool):
            return c
        self.path_solver.push()
        self.path_solver.add(z3.Not(c))
        self.path_solver.set('timeout', timeout)
        r = self.path_solver.check()
        self.path_solver.pop()
        return r == z3.unsat

    def possible(self, c):
        self.path_solver.push()
        self.path_solver.add(c)
        self.path_solver.set('timeout', 400)
        r = self.path_solver.check()
        self.path_solver.pop()
        return r != z3.unsat

    def choose(self, n, feas=None):
        """nondeterministic choice among n alternatives"""
        if self.local is not None:
            return self.local.choose(self, n, feas)
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(c)
            return c
        opts = [i for i in range(n) if feas is None or feas(i)]
        if len(opts) > 1 and self.generic > 0:
            raise Unsupported('a branch inside a comprehension over a symbolic sequence')
        if not opts:
            raise PathEnd()
        for o in opts[1:]:
            self.work.append(self.trace + [o])
        self.trace.append(opts[0])
        self.pos += 1
        self.prefix = list(self.trace)
        return opts[0]

    def decide(self, cond):
        c = norm(bv(cond)) if not isinstance(cond, bool) else cond
        if isinstance(c, bool):
            return c
        if c is True or c is False:
            return c
        if self.local is not None and has_quantifier(c):        # a name for it: a value of the iteration
            nb = self.fresh('cond', BOOL)
            self.add(nb == c)
            c = nb
        neg = z3.Not(c)
        i = self.choose(2, lambda k: self.possible(c if k == 0 else neg))
        if self.local is not None:
            self.local.conds.append(c if i == 0 else neg)
        if i == 0:
            self.add(c)
            return True
        self.add(neg)
        return False

    # ---- running a function over all its paths
    def explore(self, fnname, body):
        """body(): one symbolic execution; called once per path"""
        self.fnname = fnname
        self.work = [[]]
        paths = 0
        ended = 0
        while self.work:
            self.prefix = self.work.pop()
            self.pos = 0
            self.trace = []
            self.assume = []
            self.symno = 0
            self.path_solver = z3.Solver()
            self.path_solver.set('mbqi', False) if False else None
            self.calldepth = 0
            self.loopno = {}
            self.frames = []
            self.yield_stack = []
            self.assume_mode = False
            self.reset_path()
            paths += 1
            if paths > self.MAXPATHS:
                raise Unsupported(f'{fnname}: more than {self.MAXPATHS} paths')
            try:
                body()
            except PathEnd:
                ended += 1
        return paths

    # ------------------------------------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.ext_modules:
            return self.ext_modules[name]
        path = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(path):
            file = os.path.join(path, '__init__.py')
            pkg = name
        else:
            file = path + '.py'
            pkg = name.rsplit('.', 1)[0] if '.' in name else ''
        if not os.path.exists(file):
            raise Unsupported(f'module {name}')
        src = open(file).read()
        tree = ast.parse(src)
        m = Module(name)
        m.pkg = pkg
        m.file = file
        m.tree = tree
        self.modules[name] = m
        env = Env(None, m.env)
        m.envobj = env
        m.env['__name__'] = name
        m.env['__package__'] = pkg
        m.env['__path__'] = Opaque('__path__')
        saved = (self.fnname, self.cur_line)
        self.loading += 1
        for st in tree.body:
            if isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name) \
                    and st.test.left.id == '__name__':
                continue
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Assign, ast.AnnAssign, ast.Expr)):
                try:
                    self.exec_stmt(st, env, m)
                except Unsupported as e:
                    # a definition outside the subset only matters when it is used
                    for n in self._bound_names(st):
                        m.env[n] = BadDef(str(e))
                    self._patched(st, m)
            else:
                for n in self._bound_names(st):
                    m.env[n] = BadDef('module-level ' + type(st).__name__)
                self._patched(st, m)
        for n in mutated_globals(tree):
            if not isinstance(m.env.get(n), (UserFunc, Module, NS, UserClass)):
                m.env[n] = BadDef(f'{n} is state of the module that functions change')
        for n, v in list(m.env.items()):
            if isinstance(v, UserFunc) and v.key is None:
                v.key = f'{name}.{n}'
            if isinstance(v, UserClass) and v.module is m:
                for a, f in v.ns.items():
                    fs = [f] if isinstance(f, UserFunc) else ([f.fn] if isinstance(f, ClassM) else ([f.get] if isinstance(f, Prop) else []))
                    for x in fs:
                        if isinstance(x, UserFunc) and x.key is None:
                            x.key = f'{name}.{n}.{a}'
        self.fnname, self.cur_line = saved
        self.loading -= 1
        self.share(m)
        return m

    def _patched(self, st, m):
        """a module-level statement outside the subset assigns to parts of objects"""
        for x in ast.walk(st):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                r = x.value
                while isinstance(r, (ast.Attribute, ast.Subscript)):
                    r = r.value
                if isinstance(r, ast.Name):
                    v = m.env.get(r.id)
                    if isinstance(v, Module) and isinstance(x, ast.Attribute) and x.value is r:
                        v.env[x.attr] = BadDef(f'{v.name}.{x.attr} is assigned by {m.name}')
                    elif v is not None:
                        m.env[r.id] = BadDef(f'parts of {r.id} are assigned')

    def _bound_names(self, st):
        out = []
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.append(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.append(x.name)
            elif isinstance(x, ast.alias):
                out.append((x.asname or x.name).split('.')[0])
        return out

    def get(self, qual):
        """'srg.solver.reduce_col' or 'srg.srg.Question.from_matrix' -> value"""
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            try:
                m = self.module('.'.join(parts[:i]))
            except Unsupported:
                continue
            if not isinstance(m, Module):
                continue
            v = m.env.get(parts[i], NOT_FOUND)
            for p in parts[i + 1:]:
                if v is NOT_FOUND:
                    break
                v = v.find(p) if isinstance(v, UserClass) else NOT_FOUND
                v = NOT_FOUND if v is None else v
            if v is NOT_FOUND:
                raise Unsupported(f'{qual} does not exist')
            if isinstance(v, BadDef):
                raise Unsupported(f'{qual}: {v.why}')
            return v
        raise Unsupported(f'{qual} does not exist')

    # ------------------------------------------------------------------------------------------ statements
    def exec_block(self, body, env, m):
        for st in body:
            self.exec_stmt(st, env, m)

    def exec_stmt(self, st, env, m):
        old = self.cur_line
        self.cur_line = getattr(st, 'lineno', None)
        meth = getattr(self, 'st_' + type(st).__name__, None)
        if meth is None:
            raise Unsupported(f'statement {type(st).__name__} at line {st.lineno}')
        meth(st, env, m)
        self.cur_line = old

    def st_Pass(self, st, env, m):
        pass

    def st_Global(self, st, env, m):
        raise Unsupported('global statement')

    def st_Nonlocal(self, st, env, m):
        env.nonlocal_.update(st.names)

    def st_Expr(self, st, env, m):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.ListComp, ast.SetComp)) and len(st.value.generators) == 1:      # for its effects: a loop
            loop = getattr(st, 'as_loop', None)
            if loop is None:
                g = st.value.generators[0]
                body = ast.Expr(st.value.elt)
                for c in reversed(g.ifs):
                    body = ast.If(c, [body], [])
                loop = st.as_loop = ast.fix_missing_locations(ast.copy_location(ast.For(g.target, g.iter, [body], []), st))
            self.exec_stmt(loop, Env(env), m)
            return
        self.ev(st.value, env, m)

    def st_Import(self, st, env, m):
        for a in st.names:
            mod = self.module(a.name)
            env.set(a.asname or a.name.split('.')[0], mod if a.asname or '.' not in a.name else self.module(a.name.split('.')[0]))

    def st_ImportFrom(self, st, env, m):
        base = st.module or ''
        if st.level:
            pkg = m.pkg
            for _ in range(st.level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            base = pkg + ('.' + base if base else '')
        for a in st.names:
            name = a.asname or a.name
            env.set(name, self.import_from(base, a.name))

    def import_from(self, base, name):
        full = os.path.join(REPO, *(base + '.' + name).split('.'))
        if base in self.ext_modules:
            mod = self.ext_modules[base]
            if name not in mod.d:
                return BadDef(f'{base}.{name}')
            return mod.d[name]
        bm = self.module(base)
        if isinstance(bm, Module) and name in bm.env:
            return bm.env[name]
        if os.path.exists(full + '.py') or os.path.isdir(full):
            return self.module(base + '.' + name)
        return BadDef(f'{base}.{name} does not exist')

    def st_FunctionDef(self, st, env, m):
        f = self.make_func(st, env, m)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.ev(d, env, m)
            v = self.call(dv, [v], {})
        env.set(st.name, v)

    def make_func(self, st, env, m, name=None):
        f = UserFunc(st, env, m, name or getattr(st, 'name', '<lambda>'))
        f.defaults = [self.ev(d, env, m) for d in st.args.defaults]
        f.kwdefaults = [None if d is None else self.ev(d, env, m) for d in st.args.kw_defaults]
        return f

    def st_ClassDef(self, st, env, m):
        bases = [self.ev(b, env, m) for b in st.bases]
        ns = {}
        cenv = Env(env, ns)
        for s in st.body:
            if isinstance(s, (ast.FunctionDef, ast.Assign, ast.AnnAssign, ast.Expr, ast.Pass)):
                self.exec_stmt(s, cenv, m)
            else:
                raise Unsupported(f'class body statement {type(s).__name__}')
        env.set(st.name, UserClass(st.name, ns, bases, m))

    def st_Return(self, st, env, m):
        raise ReturnEx(self.ev(st.value, env, m) if st.value is not None else None)

    def st_Break(self, st, env, m):
        raise BreakEx()

    def st_Continue(self, st, env, m):
        raise ContinueEx()

    def st_Assert(self, st, env, m):
        c = self.truth(self.ev(st.test, env, m))
        if self.catching_assertions():
            if not self.decide(c):
                raise PyRaise(self.make_exc('AssertionError'))
            return
        self.prove('assert ' + ast.unparse(st.test)[:80], c)

    def catching_assertions(self):
        return any(f.get('asserts') for f in self.frames)

    def make_user_exc(self, key):
        o = Obj(self.get(key))
        o.attrs["args"] = ()
        return o

    def make_exc(self, name, args=()):
        o = Obj(self.builtins[name])
        o.attrs['args'] = tuple(args)
        return o

    def st_Raise(self, st, env, m):
        if st.exc is None:
            raise PyRaise(self.frames[-1].get('exc') or self.make_exc('RuntimeError'))
        e = self.ev(st.exc, env, m)
        if isinstance(e, (UserClass, ExcClass)):
            o = Obj(e)
            o.attrs['args'] = ()
            e = o
        raise PyRaise(e)

    def st_Delete(self, st, env, m):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def st_Try(self, st, env, m):
        handlers = []
        for h in st.handlers:
            if h.type is None:
                handlers.append((None, h))
            else:
                t = self.ev(h.type, env, m)
                handlers.append((t if isinstance(t, tuple) else (t,), h))
        catches_assert = any(ts is None or any(self.builtins['AssertionError'].isa(t) for t in ts) for ts, h in handlers)
        self.frames.append({'asserts': catches_assert, 'names': {n for n, c in self.builtins.items() if isinstance(c, ExcClass)
                            and any(ts is None or any(c.isa(t) for t in ts) for ts, h in handlers)}})
        try:
            try:
                self.exec_block(st.body, env, m)
            finally:
                self.frames.pop()
        except PyRaise as e:
            for ts, h in handlers:
                if ts is None or any(e.exc.cls.isa(t) for t in ts):
                    if h.name:
                        env.set(h.name, e.exc)
                    self.frames.append({'exc': e.exc})
                    try:
                        self.exec_block(h.body, env, m)
                    finally:
                        self.frames.pop()
                    break
            else:
                self.exec_block(st.finalbody, env, m)
                raise
        else:
            self.exec_block(st.orelse, env, m)
        self.exec_block(st.finalbody, env, m)

    def st_If(self, st, env, m):
        c = self.truth(self.ev(st.test, env, m))
        if self.decide(c):
            self.exec_block(st.body, env, m)
        else:
            self.exec_block(st.orelse, env, m)

    def st_Assign(self, st, env, m):
        v = self.ev(st.value, env, m)
        for t in st.targets:
            self.assign(t, v, env, m)

    def st_AnnAssign(self, st, env, m):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env, m), env, m)

    def assign(self, t, v, env, m):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                sq = self.to_seq(self.consume(v))
                n = sq.n
                cn = conc(n)
                if after and cn is None:
                    raise Unsupported('starred unpacking in the middle')
                self.prove('enough values to unpack', iv(n) >= i + after)
                for j in range(i):
                    self.assign(t.elts[j], sq.at(j), env, m)
                if cn is not None:
                    self.assign(t.elts[i].value, PyList([sq.at(j) for j in range(i, cn - after)]), env, m)
                    for j in range(after):
                        self.assign(t.elts[i + 1 + j], sq.at(cn - after + j), env, m)
                else:
                    self.assign(t.elts[i].value, PyList(seq=Seq(norm(iv(n) - i), lambda j, a=sq.at, i=i: a(norm(iv(j) + i)))), env, m)
                return
            sq = self.to_seq(self.consume(v))
            n = len(t.elts)
            if conc(sq.n) is not None:
                if conc(sq.n) != n:
                    raise PyRaise(self.make_exc('ValueError'))
            else:
                self.prove(f'{n} values to unpack', iv(sq.n) == n)
            vals = [sq.at(j) for j in range(n)]
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env, m)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, m)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, m)
            ix = self.ev_index(t.slice, env, m)
            self.setitem(o, ix, v)
        else:
            raise Unsupported(f'assignment to {type(t).__name__}')

    def st_AugAssign(self, st, env, m):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = env.lookup(t.id)
            if cur is KeyError:
                raise Unsupported(f'name {t.id}')
            env.set(t.id, self.iop(op, cur, self.ev(st.value, env, m)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, m)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(op, cur, self.ev(st.value, env, m)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, m)
            ix = self.ev_index(t.slice, env, m)
            cur = self.getitem(o, ix)
            self.setitem(o, ix, self.iop(op, cur, self.ev(st.value, env, m)))
        else:
            raise Unsupported('augmented assignment')

    def iop(self, op, cur, v):
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v)
            self.npm.arr_assign_all(self, cur, r)
            return cur
        if isinstance(cur, PyList) and op == 'Add':
            self.npm.list_extend(self, cur, v)
            return cur
        return self.binop(op, cur, v)

    # ------------------------------------------------------------------------------------------ loops
    def st_While(self, st, env, m):
        if st.orelse:
            raise Unsupported('while-else')
        spec = self.find_loop_spec(st, env, m)
        if spec is None:
            # concrete unrolling
            for _ in range(64):
                c = norm(self.truth(self.ev(st.test, env, m)))
                if not isinstance(c, bool):
                    raise Unsupported(f'while loop without invariant (line {st.lineno})')
                if not c:
                    return
                try:
                    self.exec_block(st.body, env, m)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
            raise Unsupported('while loop without invariant')
        self.run_loop(st, env, m, spec, None)

    def st_For(self, st, env, m):
        broke = self.for_loop(st, env, m)
        if st.orelse and not broke:
            self.exec_block(st.orelse, env, m)

    def for_loop(self, st, env, m):
        """-> was the loop left by break"""
        it = self.ev(st.iter, env, m)
        src = it
        it = self.consume(it)
        if isinstance(it, GenObj) and self.contract_of(it.fn) is None:
            if st.orelse:
                raise Unsupported('for-else over a generator')
            self.run_gen(it, lambda v: self._for_body(st, env, m, v), loop=True)
            return False
        sq = self.to_seq(it)
        n = conc(sq.n)
        mark = self.mut_mark()
        deps, names = (src.it.deps, src.it.names) if getattr(src, 'it', None) else (self.roots([src], False), ())
        if n is not None and n <= 32:
            for i in range(n):
                self.assign(st.target, sq.at(i), env, m)
                try:
                    self.exec_block(st.body, env, m)
                except ContinueEx:
                    pass
                except BreakEx:
                    return True
                self.stale(mark, deps, names)
            return False
        spec = self.find_loop_spec(st, env, m)
        if st.orelse and spec is not None:
            raise Unsupported('for-else with a written invariant')
        try:
            if spec is None:
                import autoloop
                return autoloop.run(self, st, env, m, sq)
            self.run_loop(st, env, m, spec, sq)
        except PathEnd:
            self.stale(mark, deps, names)
            raise
        self.stale(mark, deps, names)
        return False

    def _for_body(self, st, env, m, v):
        self.assign(st.target, v, env, m)
        try:
            self.exec_block(st.body, env, m)
        except ContinueEx:
            pass

    def find_loop_spec(self, st, env, m):
        """loop specs of the function under proof, by dynamic order of first execution of symbolic loops"""
        if self.loop_specs is None:
            return None
        key = id(st)
        if key not in self.loopno:
            self.loopno[key] = len(self.loopno)
        i = self.loopno[key]
        if i < len(self.loop_specs):
            if not self.loop_specs[i].accepts(st):
                del self.loopno[key]
                return None
            return self.loop_specs[i]
        return None

    def modified_names(self, st):
        out = []
        for s in (st.body if not isinstance(st, list) else st):
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in out:
                    out.append(x.id)
        return out

    def run_loop(self, st, env, m, spec, sq):
        """standard invariant rule.  spec: LoopSpec(havoc(I,env,st), inv(I,env,i,st) -> [(name,formula)], hints)"""
        spec.m = m
        state = spec.start(self, env, st, sq)
        if spec.strict:
            frame = spec.frame(self, env, state)
            for nm in self.modified_names(st):
                if nm in env.vars and nm not in spec.names:
                    env.vars[nm] = BadDef(f'{nm} is carried over a loop')
        zero = z3.IntVal(0)
        for name, f, *h in spec.inv(self, env, zero, state):
            self.prove(f'loop invariant "{name}" on entry', f, h[0] if h else ())
        spec.havoc(self, env, state)
        i = self.fresh('it')
        self.add(i >= 0)
        if sq is not None:
            self.add(i <= iv(sq.n))
        for name, f, *h in spec.inv(self, env, i, state):
            self.add(f)
        branch = self.choose(2)
        if branch == 0:          # one more iteration
            if sq is not None:
                self.add(i < iv(sq.n))
                self.assign(st.target, sq.at(i), env, m)
            else:
                c = self.truth(self.ev(st.test, env, m))
                if not self.decide(c):
                    raise PathEnd()
            snap = spec.before_body(self, env, i, state)
            if spec.strict:
                oldj, self.journal = self.journal, []
                mark = (Store._n, PyList._n)
            broke = False
            try:
                try:
                    self.exec_block(st.body, env, m)
                except ContinueEx:
                    pass
                except BreakEx:
                    broke = True
            finally:
                if spec.strict:
                    log, self.journal = self.journal, oldj
                    if oldj is not None:
                        oldj += log
            if spec.strict:
                for what, undo in log:
                    if what[0] == 'store' and (what[1].id > mark[0] or any(what[1] is x for x in frame)):
                        continue
                    if what[0] == 'list' and (what[1].no > mark[1] or any(what[1] is x for x in frame)):
                        continue
                    if what[0] == 'attr' and (any(what[1] is x for x in frame) or (getattr(what[1], 'no', 0) > mark[1])):
                        continue
                    raise Unsupported(f'a {what[0]} is changed in a loop whose invariant does not cover it')
            if broke:
                spec.after_break(self, env, i, state)
                return
            spec.after_body(self, env, i, state, snap)
            for name, f, *h in spec.inv(self, env, i + 1, state):
                self.prove(f'loop invariant "{name}" kept', f, h[0] if h else ())
            raise PathEnd()
        if sq is not None:
            self.add(i == iv(sq.n))
        else:
            c = self.truth(self.ev(st.test, env, m))
            if self.decide(c):
                raise PathEnd()
        spec.after(self, env, i, state)

    # ------------------------------------------------------------------------------------------ generators
    def gen_is(self, fn):
        if fn.is_gen is None:
            fn.is_gen = not isinstance(fn.node, ast.Lambda) and _has_yield(fn.node.body)
        return fn.is_gen

    def run_gen(self, g, on_yield, loop=False):
        """execute the body of an (uncontracted) generator, calling on_yield at each yield"""
        tag = object()

        def h(v):
            try:
                on_yield(v)
            except BreakEx:
                raise GenBreak(tag)
        self.yield_stack.append(h)
        try:
            try:
                self.exec_call_body(g.fn, g.args, g.kw)
            except GenBreak as b:
                if b.tag is not tag:
                    raise
        finally:
            self.yield_stack.pop()

    def do_yield(self, v):
        if not self.yield_stack:
            raise Unsupported('yield outside a generator under proof')
        h = self.yield_stack.pop()
        try:
            h(v)
        finally:
            self.yield_stack.append(h)

    # ------------------------------------------------------------------------------------------ calls
    def contract_of(self, fn):
        k = getattr(fn, 'key', None)
        if k is None or k not in self.contracts:
            return None
        return self.contracts[k]

    def call(self, fn, args, kw):
        if isinstance(fn, BadDef):
            raise Unsupported(fn.why)
        if isinstance(fn, Builtin):
            self.builtin_used.add(fn.name)
            return self.call_builtin(fn, args, kw)
        if isinstance(fn, PartialV):
            return self.call(fn.fn, fn.args + list(args), {**fn.kw, **kw})
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self_] + list(args), kw)
        if isinstance(fn, ClassM):
            return self.call(fn.fn, args, kw)
        if isinstance(fn, UserFunc):
            if self.gen_is(fn) and self.contract_of(fn) is None:
                return GenObj(fn, list(args), dict(kw))
            c = self.contract_of(fn)
            if c is not None:
                self.used_contracts.add(fn.key)
                args, kw = [self.consume(a) for a in args], {k: self.consume(v) for k, v in kw.items()}
                a = self.bind(fn, args, kw)
                r = c.at_call(self, a)
                if self.gen_is(fn) and isinstance(r, Seq) and r.it is None:
                    r = self.lazy(r, self.roots(list(args) + list(kw.values()), True))
                return r
            return self.exec_call_body(fn, args, kw)
        if isinstance(fn, UserClass):
            if any(self.is_exc(b) for b in fn.bases):
                o = Obj(fn)
                o.attrs['args'] = tuple(args)
                return o
            o = Obj(fn)
            init = fn.find('__init__')
            if init is not None:
                self.call(init, [o] + list(args), kw)
            return o
        if isinstance(fn, ExcClass):
            return self.make_exc(fn.name, args)
        if isinstance(fn, NTClass):
            vals = list(args) + [None] * (len(fn.fields) - len(args))
            for k, v in kw.items():
                vals[fn.fields.index(k)] = v
            return NTVal(fn, vals)
        if isinstance(fn, Obj):
            c = fn.cls.find('__call__')
            if c is not None:
                return self.call(c, [fn] + list(args), kw)
        raise Unsupported(f'call of {fn!r}')

    def call_builtin(self, fn, args, kw):
        if fn.name in STORING:
            return fn.f(self, args, kw)
        if fn.name == 'len' and args and getattr(args[0], 'it', None):
            raise Unsupported('length of an iterator')
        lz = LAZY.get(fn.name)
        if lz is not None:
            if lz == 'fn':
                deps = self.roots(args, True)
                names = self.free_values(args[0]) if args and isinstance(args[0], UserFunc) else []
            else:
                deps, names = self.roots(args, lz == 'deep'), []
            for a in args:
                if getattr(a, 'it', None):
                    names = names + a.it.names
        args = [self.consume(a) for a in args]
        kw = {k: self.consume(v) for k, v in kw.items()}
        kw = Kw(kw)
        r = fn.f(self, args, kw)
        if kw.unread and fn.name not in KWFREE:
            raise Unsupported(f'{fn.name}({sorted(kw.unread)[0]}=...)')
        return r if lz is None else self.lazy(r, deps, names)

    def is_exc(self, c):
        return isinstance(c, ExcClass) or (isinstance(c, UserClass) and any(self.is_exc(b) for b in c.bases))

    def bind(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        kw = dict(kw)
        for i, n in enumerate(names):
            if i < len(args):
                vals[n] = args[i]
            elif n in kw:
                vals[n] = kw.pop(n)
            else:
                j = i - (len(names) - len(fn.defaults))
                if j < 0:
                    raise PyRaise(self.make_exc('TypeError'))
                vals[n] = fn.defaults[j]
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        elif len(args) > len(names):
            raise PyRaise(self.make_exc('TypeError'))
        for x, d in zip(a.kwonlyargs, fn.kwdefaults):
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif d is not None:
                vals[x.arg] = d
            else:
                raise PyRaise(self.make_exc('TypeError'))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PyDict(kw)
        elif kw:
            raise PyRaise(self.make_exc('TypeError'))
        return vals

    def exec_call_body(self, fn, args, kw):
        vals = self.bind(fn, args, kw)
        if fn.key:
            self.inlined.add(fn.key)
        if self.calldepth > self.depth_limit:
            raise Unsupported('call depth')
        self.calldepth += 1
        env = Env(fn.env, vals)
        env.order = list(vals)
        line = self.cur_line
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, env, fn.module)
            self.exec_block(fn.node.body, env, fn.module)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.calldepth -= 1
            self.cur_line = line

    # ------------------------------------------------------------------------------------------ expressions
    def ev(self, e, env, m):
        meth = getattr(self, 'ex_' + type(e).__name__, None)
        if meth is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return meth(e, env, m)

    def ex_Constant(self, e, env, m):
        if isinstance(e.value, float):
            return z3.RealVal(repr(e.value))
        return e.value

    def ex_Name(self, e, env, m):
        v = env.lookup(e.id)
        if v is KeyError:
            v = m.env.get(e.id, KeyError)
        if v is KeyError:
            v = self.builtins.get(e.id, KeyError)
        if v is KeyError:
            raise Unsupported(f'name {e.id}')
        if isinstance(v, BadDef):
            raise Unsupported(f'{e.id}: {v.why}')
        return v

    def ex_JoinedStr(self, e, env, m):
        return self.npm.format_str(self, e, env, m)

    def ex_Tuple(self, e, env, m):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                sq = self.to_seq(self.consume(self.ev(x.value, env, m)))
                n = conc(sq.n)
                if n is None:
                    out.append(StarSeq(sq))
                    continue
                out += [sq.at(i) for i in range(n)]
            else:
                out.append(self.ev(x, env, m))
        if any(isinstance(x, StarSeq) for x in out):      # a display of symbolic length
            r = Seq(0, lambda i: None)
            for x in out:
                r = self.npm.concat_seqs(self, r, x.sq if isinstance(x, StarSeq) else self.to_seq((x,)))
            return r
        return tuple(out)

    def ex_List(self, e, env, m):
        r = self.ex_Tuple(e, env, m)
        return PyList(seq=r) if isinstance(r, Seq) else PyList(list(r))

    def ex_Set(self, e, env, m):
        items = [self.ev(x, env, m) for x in e.elts]
        return PySet(Seq(len(items), lambda i: items[conc(i)]))

    def ex_Dict(self, e, env, m):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            kk = self.ev(k, env, m)
            if is_z(kk) and conc(kk) is None:
                raise Unsupported('dict display with symbolic keys')
            d.items[kk] = self.ev(v, env, m)
        return d

    def ex_Attribute(self, e, env, m):
        return self.getattr(self.ev(e.value, env, m), e.attr)

    def ex_Subscript(self, e, env, m):
        o = self.ev(e.value, env, m)
        return self.getitem(o, self.ev_index(e.slice, env, m))

    def ev_index(self, s, env, m):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env, m)
            return Slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env, m) for x in s.elts)
        return self.ev(s, env, m)

    def ex_Slice(self, e, env, m):
        return self.ev_index(e, env, m)

    def ex_Call(self, e, env, m):
        fn = self.ev(e.func, env, m)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, m)
                sq = self.to_seq(self.consume(v))
                n = conc(sq.n)
                if n is None:
                    args.append(StarSeq(sq))
                else:
                    args += [sq.at(i) for i in range(n)]
            else:
                args.append(self.ev(a, env, m))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, m)
                if not isinstance(d, PyDict):
                    raise Unsupported('**kwargs')
                kw.update(d.items)
            else:
                kw[k.arg] = self.ev(k.value, env, m)
        return self.call(fn, args, kw)

    def ex_Lambda(self, e, env, m):
        return self.make_func(e, env, m, '<lambda>')

    def ex_IfExp(self, e, env, m):
        c = norm(self.truth(self.ev(e.test, env, m)))
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse, env, m)
        # both sides plain values without effect: build an if-then-else; otherwise fork
        if _pure(e.body) and _pure(e.orelse):
            mark = len(self.assume)
            a = self.ev(e.body, env, m)
            b = self.ev(e.orelse, env, m)
            isr = lambda x: is_z(x) and z3.is_real(x)
            if scalar(a) and scalar(b) and isr(a) == isr(b):
                return ite(c, a, b)
        if self.decide(c):
            return self.ev(e.body, env, m)
        return self.ev(e.orelse, env, m)

    def ex_BoolOp(self, e, env, m):
        isand = isinstance(e.op, ast.And)
        vals = []
        pure = all(_pure(x) for x in e.values[1:])
        if pure:
            vs = []
            for x in e.values:
                v = orig = self.ev(x, env, m)
                if not (isinstance(v, bool) or (is_z(v) and z3.is_bool(v))):
                    if scalar(v):
                        break                          # the value of the expression is the operand, not its truth value
                    t = self.truth(v)
                    if len(e.values) and x is not e.values[-1] and isinstance(norm(t), bool):
                        v = norm(t)
                    else:
                        break
                c = norm(bv(v)) if scalar(v) else v
                if isinstance(c, bool):
                    if c != isand:
                        if vs and orig is not v:
                            break
                        return orig if not vs else (And(*vs, zb(c)) if isand else Or(*vs, zb(c)))
                    if x is e.values[-1] and not vs:
                        return v
                    continue
                vs.append(c)
            else:
                return And(*vs) if isand else Or(*vs)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env, m)
            if i == len(e.values) - 1:
                return v
            t = self.decide(self.truth(v))
            if t != isand:
                return v
        return v

    def ex_UnaryOp(self, e, env, m):
        v = self.ev(e.operand, env, m)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return Not(t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Arr):
                f = v.snap()
                return Arr(v.shape, lambda *ix: -iv(f(*ix)), dt=v.dt)
            if isinstance(v, (int, float)):
                return -v
            return -v
        if isinstance(e.op, ast.Invert) and isinstance(v, Arr) and v.dt == 'bool':
            f = v.snap()
            return Arr(v.shape, lambda *ix: Not(f(*ix)), dt='bool')
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def ex_BinOp(self, e, env, m):
        return self.binop(type(e.op).__name__, self.ev(e.left, env, m), self.ev(e.right, env, m))

    def binop(self, op, a, b):
        return self.npm.binop(self, op, a, b)

    def ex_Compare(self, e, env, m):
        left = self.ev(e.left, env, m)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env, m)
            out.append(self.npm.compare(self, type(op).__name__, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        if any(isinstance(o, Arr) for o in out):
            raise Unsupported('chained comparison of arrays')
        return And(*[self.truth(o) for o in out])

    def ex_Starred(self, e, env, m):
        raise Unsupported('starred')

    def ex_Yield(self, e, env, m):
        self.do_yield(self.ev(e.value, env, m) if e.value is not None else None)
        return None

    def ex_YieldFrom(self, e, env, m):
        it = self.ev(e.value, env, m)
        if isinstance(it, GenObj) and self.contract_of(it.fn) is None:
            self.run_gen(it, lambda v: self.do_yield(v))
            return None
        sq = self.to_seq(self.consume(it))
        n = conc(sq.n)
        if n is None:
            h = self.yield_stack[-1] if self.yield_stack else None
            if h is not None and getattr(h, 'bulk', None):
                h.bulk(sq)
                return None
            import autoloop
            autoloop.loop(self, sq.n, lambda g: self.do_yield(sq.at(g)), env, lambda w: None, lambda: None)
            return None
        for i in range(n):
            self.do_yield(sq.at(i))
        return None

    def ex_NamedExpr(self, e, env, m):
        v = self.ev(e.value, env, m)
        self.assign(e.target, v, env, m)
        return v

    # ---- comprehensions: lazily mapped sequences
    def ex_ListComp(self, e, env, m):
        r = self.comp(e, env, m)
        if isinstance(r, list):
            return PyList(r)
        return PyList(seq=r)

    def ex_GeneratorExp(self, e, env, m):
        names = self.local_names([e.elt] + [x for g in e.generators for x in g.ifs] + [g.iter for g in e.generators[1:]], env,
                                 {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)})
        src = self.ev(e.generators[0].iter, env, m)
        deps = self.roots([src] + [v for _, _, v in names], True)
        if getattr(src, 'it', None):
            names = names + src.it.names
        r = self.comp(e, env, m, (src,))
        if isinstance(r, list):
            r = Seq(len(r), lambda i, r=r: r[conc(i)] if conc(i) is not None else self.npm.pick(self, r, i), {'items': r})
        return self.lazy(r, deps, names)

    def ex_SetComp(self, e, env, m):
        r = self.comp(e, env, m)
        if isinstance(r, list):
            return PySet(Seq(len(r), lambda i: r[conc(i)]))
        return PySet(r)

    def ex_DictComp(self, e, env, m):
        g = e.generators
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        fake = ast.ListComp(elt=pair, generators=g)
        r = self.comp(ast.copy_location(fake, e), env, m)
        return self.npm.dict_from_pairs(self, r)

    def comp_elt(self, e, ne, m):
        v = self.ev(e.elt, ne, m)
        if isinstance(v, UserFunc) and any(en is ne for en, _, _ in self.free_values(v)):
            raise Unsupported('a function over the variable of a comprehension outlives it')
        return v

    def comp(self, e, env, m, src=None):
        g = e.generators[0]
        it = self.consume(src[0] if src else self.ev(g.iter, env, m))
        if isinstance(it, GenObj) and self.contract_of(it.fn) is None:
            out = []

            def on(v):
                ne = Env(env)
                self.assign(g.target, v, ne, m)
                for c in g.ifs:
                    if not self.decide(self.truth(self.ev(c, ne, m))):
                        return
                if len(e.generators) > 1:
                    raise Unsupported('nested comprehension over a generator')
                out.append(self.comp_elt(e, ne, m))
            self.run_gen(it, on)
            return out
        sq = self.to_seq(it)
        n = conc(sq.n)
        if n is not None and n <= 64:
            out = []
            for i in range(n):
                ne = Env(env)
                self.assign(g.target, sq.at(i), ne, m)
                ok = True
                for c in g.ifs:
                    if not self.decide(self.truth(self.ev(c, ne, m))):
                        ok = False
                        break
                if not ok:
                    continue
                if len(e.generators) > 1:
                    sub = ast.ListComp(elt=e.elt, generators=e.generators[1:])
                    r = self.comp(ast.copy_location(sub, e), ne, m)
                    if not isinstance(r, list):
                        if n != 1:
                            raise Unsupported('nested symbolic comprehension')
                        return r
                    out += r
                else:
                    out.append(self.comp_elt(e, ne, m))
            return out
        if len(e.generators) > 1:
            inner = ast.copy_location(ast.ListComp(elt=e.elt, generators=e.generators[1:]), e)
            r = self.npm.sym_comp(self, ast.copy_location(ast.ListComp(elt=inner, generators=[g]), e), g, sq, env, m)
            return self.npm.flatten(self, Seq(r.n, lambda i: self.to_seq(r.at(i))))
        return self.npm.sym_comp(self, e, g, sq, env, m)

    # ------------------------------------------------------------------------------------------ attributes
    def getattr(self, o, n):
        if isinstance(o, BadDef):
            raise Unsupported(o.why)
        if isinstance(o, Obj):
            if n in o.attrs:
                return o.attrs[n]
            c = o.cls.find(n)
            if c is None:
                if n == '__class__':
                    return o.cls
                raise Unsupported(f'{o.cls.name} has no attribute {n}')
            if isinstance(c, Prop):
                return self.call(c.get, [o], {})
            if isinstance(c, UserFunc):
                return Bound(c, o)
            if isinstance(c, ClassM):
                return c.fn if c.static else Bound(c.fn, o.cls)
            return c
        if isinstance(o, UserClass):
            c = o.find(n)
            if n == '__name__':
                return o.name
            if c is None:
                raise Unsupported(f'class {o.name} has no attribute {n}')
            if isinstance(c, ClassM):
                return c.fn if c.static else Bound(c.fn, o)
            return c
        if isinstance(o, Module):
            v = o.env.get(n, NOT_FOUND)
            if v is NOT_FOUND:
                try:
                    return self.module(o.name + '.' + n)
                except Unsupported:
                    raise Unsupported(f'{o.name}.{n} does not exist')
            if isinstance(v, BadDef):
                raise Unsupported(f'{o.name}.{n}: {v.why}')
            return v
        if isinstance(o, NS):
            if n not in o.d:
                raise Unsupported(f'{o.name}.{n} is not modelled')
            return o.d[n]
        if isinstance(o, UserFunc):
            if n in o.attrs:
                return o.attrs[n]
            if n in ('__name__', '__qualname__', '__doc__', '__module__'):
                return o.name if 'name' in n else Opaque(n)
        if hasattr(o, 'open'):
            return self.getattr(o.open(self), n)
        if isinstance(o, Prop):
            if n == 'setter':
                return Builtin('property.setter', lambda I_, a, k: Prop(o.get, a[0]))
            if n == 'getter':
                return Builtin('property.getter', lambda I_, a, k: Prop(a[0], o.set_))
        return self.npm.value_attr(self, o, n)

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            c = o.cls.find(n)
            if isinstance(c, Prop):
                if c.set_ is None:
                    raise PyRaise(self.make_exc('AttributeError'))
                self.call(c.set_, [o, v], {})
                return
            if o.prot and not self.assume_mode:
                self.frame_violation(f'{o.prot}.{n} is assigned')
            self.log_attr(o, n)
            o.attrs[n] = v
            return
        if isinstance(o, UserFunc):
            if o.key and not self.loading:
                raise Unsupported('an attribute of a function is assigned')
            o.attrs[n] = v
            return
        raise Unsupported(f'attribute assignment on {type(o).__name__}')

    def frame_violation(self, what):
        self.prove(f'frame: {what}', False)

    def getitem(self, o, ix):
        return self.npm.getitem(self, o, ix)

    def setitem(self, o, ix, v):
        self.npm.setitem(self, o, ix, v)

    # ------------------------------------------------------------------------------------------ conversions
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int)):
            return bool(v)
        if is_z(v):
            if z3.is_bool(v):
                return v
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PyList):
            n = len(v.items) if v.is_conc() else v.seq.n
            return n > 0 if isinstance(n, int) else n > 0
        if isinstance(v, PySet):
            return iv(v.seq.n) > 0 if not isinstance(v.seq.n, int) else v.seq.n > 0
        if isinstance(v, PyDict):
            if v.sym is not None:
                return iv(v.sym.n) > 0
            return len(v.items) > 0
        if isinstance(v, Arr):
            n = self.npm.arr_size(v)
            if conc(n) == 1:
                return bv(v.get(*([0] * v.ndim)))
            if v.ndim == 0:
                return bv(v.get())
            raise Unsupported('truth value of an array')
        if isinstance(v, (UserFunc, Obj, UserClass, Builtin)):
            if isinstance(v, Obj) and v.cls.find('__len__'):
                return self.call(v.cls.find('__len__'), [v], {}) != 0
            return True
        return self.npm.truth(self, v)

    def to_seq(self, v):
        return self.npm.to_seq(self, v)


class BadDef(Val):
    def __init__(self, why):
        self.why = why


class StarSeq:
    def __init__(self, sq):
        self.sq = sq


def scalar(v):
    return isinstance(v, (bool, int)) or (is_z(v))


def _has_yield(body):
    for st in body:
        todo = [st]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo += list(ast.iter_child_nodes(x))
    return False


def _pure(e):
    """expression without calls that could have effects or raise"""
    for x in ast.walk(e):
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)):
            return False
        if isinstance(x, ast.Call):
            if not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'min', 'max', 'abs', 'int', 'bool', 'sum', 'any', 'all')
                    or isinstance(x.func, ast.Attribute) and x.func.attr in ('sum', 'any', 'all')):
                return False
        if isinstance(x, ast.Subscript):
            return False
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Div, ast.FloorDiv, ast.Mod, ast.Pow)):
            return False
    return True
