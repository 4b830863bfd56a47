"""Lists as multisets: "all entries satisfy P" is a truth value that follows the list operations (removal of one entry, rearrangement,
concatenation, filtering); ListLoop is a loop invariant over the lists of a function."""
import z3
import autoloop
from interp import *
from contract import LoopSpec
from core import *


class Pred:
    """a property of an entry; f(*entry) -> formula"""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, I, e):
        if isinstance(e, (tuple, NTVal)) or (isinstance(e, PyList) and e.is_conc()):
            e = e if isinstance(e, tuple) else (tuple(e.vals) if isinstance(e, NTVal) else tuple(e.items))
        else:
            raise Unsupported('list entry is not a tuple')
        if not all(scalar(x) for x in e):
            raise Unsupported('list entry is not a tuple of numbers')
        return zb(self.f(*[iv(x) for x in e]))


def quantified(I, pred, sq):
    return FA(lambda i: Implies(rng(i, sq.n), pred(I, sq.at(i))))


def ALL(I, pred, sq):
    """all entries of the sequence satisfy pred"""
    if isinstance(sq, PyList):
        sq = I.to_seq(sq) if sq.is_conc() else sq.seq
    key = (pred.name, id(sq))
    if key in I.alls:
        return I.alls[key][0]
    c = conc(sq.n)
    if c is not None and c <= 32:
        r = And(*[pred(I, sq.at(i)) for i in range(c)])
    elif 'perm' in sq.tag:
        r = ALL(I, pred, sq.tag['perm'][2])
    elif 'concat' in sq.tag:
        r = And(*[ALL(I, pred, x) for x in sq.tag['concat']])
    elif 'removed' in sq.tag:
        src, k = sq.tag['removed']
        a = ALL(I, pred, src)
        r = I.fresh('all', BOOL)
        I.add(Implies(rng(iv(k), src.n), a == And(r, pred(I, src.at(k)))))
    else:
        r = I.fresh('all', BOOL)
        I.add(r == quantified(I, pred, sq))
        if 'filtered' in sq.tag and sq.tag['filtered'][2] is not None:
            E, n, src = sq.tag['filtered']
            I.add(Implies(iv(n) >= 0, r == FA(lambda i: Implies(And(rng(i, n), zb(E.m(i))), pred(I, src.at(i))))))
            define(I, pred, src)
    I.alls[key] = (r, sq)
    return r


def define(I, pred, sq):
    """the truth value as a statement about the positions (for sequences that have it only by a rule)"""
    r = ALL(I, pred, sq)
    if any(t in sq.tag for t in ('perm', 'concat', 'removed')):
        I.add(r == quantified(I, pred, sq))


def base(I, p='l', arity=3):
    n = I.fresh(p + 'n')
    I.add(n >= 0)
    fs = [I.fresh_fn(p + x, Z, Z) for x in ('k', 'i', 'v')[:arity]]
    return Seq(n, lambda j: tuple(f(iv(j)) for f in fs))


class ListLoop(LoopSpec):
    """invariant: the entries of all lists together (and those taken out before the loop) satisfy P exactly when those of the
    input do; all entries are well formed.  ghost['Sin']: [(P, truth value for the input)], weak / strong: well-formedness"""

    def __init__(self, weak, strong):
        self.weak, self.strong = weak, strong

    def lists(self, env):
        out = {}
        e = env
        while e is not None and e.glob is None and e.parent is not None:
            for nm, v in e.vars.items():
                if isinstance(v, PyList) and id(v) not in {id(x) for x in out.values()}:
                    out[nm] = v
            e = e.parent
        return out

    def start(self, I, env, st, sq):
        if sq is not None:
            raise Unsupported('for loop over a changing list')
        s = {'lists': self.lists(env), 'pops': list(I.popped), 'st': st}
        if not s['lists']:
            raise Unsupported('no list to state the invariant of')
        s['strong'] = {nm: [p for p in self.strong if I.entails(ALL(I, p, l))] for nm, l in s['lists'].items()}
        for _ in range(4):
            drop = self.probe(I, env, st, s)
            if not drop:
                break
            for nm, p in drop:
                if p in s['strong'][nm]:
                    s['strong'][nm].remove(p)
        return s

    def probe(self, I, env, st, s):
        """which well-formedness conditions does one iteration not keep"""
        drop = []

        def setup():
            self.havoc(I, env, s)
            for nm, f in self.inv(I, env, z3.IntVal(0), s):
                I.add(f)
            self._take(I, env, st)

        def body(g):
            I.exec_block(st.body, env, self.m)
            check()

        def check():
            for nm, l in s['lists'].items():
                for p in list(s['strong'][nm]):
                    if not I.entails(ALL(I, p, l), 800):
                        drop.append((nm, p))
        g = I.fresh('probe')
        n = I.fresh('pn')
        saved = I.loopno.copy()
        autoloop.body_paths(I, env, I.symno, n, g, body, 1, set(), setup)
        I.loopno = saved
        return drop

    def _take(self, I, env, st):
        c = I.truth(I.ev(st.test, env, self.m))
        if not I.decide(c):
            raise PathEnd()

    def havoc(self, I, env, s):
        for nm, l in s['lists'].items():
            I.log_list(l)
            l.items, l.seq = None, base(I, nm)
        for nm in I.modified_names(s['st']):
            v = env.vars.get(nm)
            if nm in env.vars and not (isinstance(v, PyList) and any(v is l for l in s['lists'].values())):
                env.vars[nm] = BadDef(f'{nm} is carried over a loop')

    def inv(self, I, env, i, s):
        out = []
        for nm, l in s['lists'].items():
            for p in self.weak + s['strong'][nm]:
                out.append((f'{p.name} in {nm}', ALL(I, p, l)))
        for P, sin in I.ghost['Sin']:
            out.append((f'the lists together say what the input says ({P.name})',
                        sin == And(*[ALL(I, P, l) for l in s['lists'].values()], *[P(I, e) for e in s['pops']])))
        return out

    def before_body(self, I, env, i, s):
        s['oldj'], I.journal = I.journal, []
        s['mark'] = PyList._n
        return None

    def after_body(self, I, env, i, s, snap):
        for what, undo in I.journal:
            if what[0] == 'list':
                l = what[1]
                if l.no <= s['mark'] and not any(l is x for x in s['lists'].values()):
                    raise Unsupported('the loop changes a list outside its function')
            else:
                raise Unsupported(f'the loop changes a {what[0]}')
        for nm, l in s['lists'].items():
            if env.lookup(nm) is not l:
                raise Unsupported(f'{nm} is bound to another list in the loop')
        I.journal = s['oldj']
