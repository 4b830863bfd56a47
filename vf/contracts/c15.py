from contract import *
from contracts.c16 import ints
import strs


def problem(v, k, l, u, prefix=''):
    return strs.make([prefix + 'problem_', v, '_', k, '_', l, '_', u])


def naturals(I):
    p = ints(I, 'v', 'k', 'l', 'u')
    I.add(*[x >= 0 for x in p])
    return p


def same_text(x, y):
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    x = x.parts if isinstance(x, strs.SymStr) else [x]
    y = y.parts if isinstance(y, strs.SymStr) else [y]
    if not all(isinstance(p, str) or is_z(p) for p in x):
        raise Unsupported('text')
    try:
        return strs.str_eq(x, y)
    except Unsupported:
        return False


@contract('C15')
class ExtractVklu(Contract):
    key = 'srg.database.extract_vklu'

    def args(self, I):
        self.p = naturals(I)
        return dict(problem=problem(*self.p))

    def on_return(self, I, a, r, old):
        sq = I.to_seq(r)
        I.prove('four numbers', iv(sq.n) == 4)
        for i, x in enumerate(self.p):
            y = sq.at(i)
            if not scalar(y):
                raise Unsupported('extracted value')
            I.prove(f'{"vklu"[i]} is the one in the name', iv(y) == x)


@contract('C15')
class GetSolutions(Contract):
    """the solutions stored in the module of that name; an error if there is no such module"""
    key = 'srg.database.get_solutions'

    def args(self, I):
        v, k, l, u = naturals(I)
        return dict(v=v, k=k, l=l, u=u)

    def pre(self, I, a):
        return [('non-negative', And(*[iv(x) >= 0 for x in a.values()]))]

    def name(self, a):
        return problem(*[iv(x) for x in a.values()], prefix='srg.database.')

    def on_return(self, I, a, r, old):
        if not isinstance(r, strs.ModAttr):
            raise Unsupported('result of get_solutions')
        I.prove('the attribute that holds the solutions', r.n == 'solutions')
        I.prove('of the module with that name', same_text(r.mod.name, self.name(a)))

    def on_raise(self, I, a, exc, old):
        I.prove(f'only a missing module is an error ({exc.cls.name})', exc.cls.isa(I.builtins['ImportError']) and len(I.imports) > 0)
        if I.imports:
            I.prove('the missing module is the one with that name', same_text(I.imports[-1], self.name(a)))

    def at_call(self, I, a):
        for t in self.pre(I, a):
            I.prove(f'precondition of {self.key}: {t[0]}', t[1])
        I.ghost.setdefault('served', []).append(('list', list(a.values())))
        check_served(I, a)
        return strs.ModAttr(strs.FakeModule(self.name(a)), 'solutions')


class Draw(Contract):
    """not a property of its own: recorded when the command calls it"""
    key = 'srg.database.draw'

    def at_call(self, I, a):
        I.ghost.setdefault('served', []).append(('draw', list(a.values())))
        check_served(I, a)
        return None


CONTRACTS[Draw.key] = Draw()


def equation(v, k, l, u):
    return (v - k - 1) * u == k * (k - l - 1)


def check_served(I, a):
    I.prove('the parameters were checked before serving', equation(*[iv(x) for x in a.values()]))
    if 'asked' in I.ghost:
        I.prove('the parameters served are the ones asked for', And(*[iv(x) == y for x, y in zip(a.values(), I.ghost['asked'])]))


@contract('C15')
class AssertSrg(Contract):
    key = 'srg.utils.assert_srg'

    def args(self, I):
        I.frames.append({'asserts': True})
        return dict(zip('vklu', ints(I, 'v', 'k', 'l', 'u')))

    def on_return(self, I, a, r, old):
        I.prove('accepted only if the identity holds', equation(*a.values()))

    def on_raise(self, I, a, exc, old):
        I.prove(f'refused with AssertionError ({exc.cls.name})', exc.cls.isa(I.builtins['AssertionError']))
        I.prove('refused only if the identity fails', z3.Not(equation(*a.values())))

    def at_call(self, I, a):
        e = equation(*[iv(x) for x in a.values()])
        if I.choose(2) == 0:
            I.add(e)
            return None
        I.add(z3.Not(e))
        raise PyRaise(I.make_exc('AssertionError'))


@contract('C15')
class ListProblems(Contract):
    key = 'srg.database.list_problems'

    def args(self, I):
        return {}

    def on_return(self, I, a, r, old):
        sq = I.to_seq(r)
        i = I.fresh('i')
        I.add(rng(i, sq.n))
        x = sq.at(i)
        if not isinstance(x, strs.AbsName):
            raise Unsupported('list_problems')
        I.points.append(i)
        n = [t for t in I.assume if 'nmod' in str(t)]
        N = z3.Int([t for t in app_names(And(*I.assume)) if t.startswith('nmod!')][0])
        I.prove('only modules of the package whose name begins with problem', And(0 <= x.i, x.i < N, strs.starts(x.i, 'problem')))
        # and all of them
        j = I.fresh('j')
        I.add(rng(j, N), strs.starts(j, 'problem'))
        F = sq.tag.get('filtered') or (r.seq.tag.get('filtered') if isinstance(r, PyList) and r.seq is not None else None)
        if F is None:
            raise Unsupported('list_problems is not a filter')
        w = F[0].cnt(j)
        I.prove('every such module', And(0 <= w, w < iv(sq.n), iv(sq.at(w).i) == j))

    def at_call(self, I, a):
        return Opaque('the listed problems')


@lemma('C15 the database command', 'C15')
def command(I):
    """runs the body of srg/database/__main__.py"""
    v, k, l, u = naturals(I)
    num = [strs.make([x]) for x in (v, k, l, u)]
    cases = [['prog', 'list'] + num, ['prog', 'draw'] + num, ['prog', 'else'] + num, ['prog', 'list'] + num + ['more'], ['prog', 'list'] + num[:3],
             ['prog', 'list'], ['prog'], ['prog', 'list', 'x', 'y', 'z', 't'], ['prog', 'draw'] + num[:2]]
    c = cases[I.choose(len(cases))]
    valid = len(c) >= 6 and c[2] is num[0]
    if valid:
        I.ghost['asked'] = [v, k, l, u]
    import copy
    old = I.ext_modules['sys']
    d = dict(old.d)
    d['argv'] = PyList(list(c))
    I.ext_modules['sys'] = NS('sys', d)
    outcome = 'end'
    try:
        m = Module('srg.database.__main__')
        m.pkg = 'srg.database'
        path = os.path.join(interp.REPO, 'srg', 'database', '__main__.py')
        tree = ast.parse(open(path).read())
        env = Env(None, m.env)
        m.envobj = env
        m.env['__name__'] = '__main__'
        m.env['__package__'] = 'srg.database'
        I.exec_block(tree.body, env, m)
    except PyRaise as e:
        outcome = e.exc.cls.name
    finally:
        I.ext_modules['sys'] = old
    served = I.ghost.get('served', [])
    printed = [x for a in I.printed for x in (a if isinstance(a, (list, tuple)) else [a])]
    sols = [x for x in printed if isinstance(x, strs.ModAttr)]
    if valid and c[1] == 'list':
        if outcome == 'end':
            I.prove('accepted parameters: the solutions are looked up and printed once', len(sols) == 1 and [s for s, _ in served] == ['list'])
        else:
            I.prove(f'no serving after a refusal ({outcome})', not served and not sols and outcome == 'AssertionError')
            I.prove('only parameters that fail the identity are refused', z3.Not(equation(v, k, l, u)))
    elif valid and c[1] == 'draw':
        if outcome == 'end':
            I.prove('accepted parameters: drawn once', [s for s, _ in served] == ['draw'])
        else:
            I.prove(f'nothing is drawn after a refusal ({outcome})', not served and outcome == 'AssertionError')
    else:
        I.prove('nothing is served', not served and not sols)
